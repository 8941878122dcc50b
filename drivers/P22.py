import contextlib
import email.message
import http.client
import io
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import urllib.error
import urllib.request
from unittest import mock
import numpy as np
import pandas as pd
from diff_diff import datasets
import vh
from du import *

SPEC = "P22_Datasets"
RULE = ("histories of loads, publications and cache clearing enumerated by TLC from the cache state machine and longer random ones over all four datasets, with every kind of network failure, "
        "a disk that fills up and a process that dies in the middle of the write; random downloaded tables; built-in data; non-trivial when a load answered")
NAMES = ["card_krueger", "castle_doctrine", "divorce_laws", "mpdta"]
DOWN = ["url", "http404", "http503", "timeout", "connect_timeout", "refused", "reset", "disconnected", "read_timeout", "read_reset", "truncated"]


def nontrivial(ev):
    return ev["kind"] != "history" or any(a["op"] == "load" for a in ev["acts"])


def cost(c):
    return 3 if c["kind"] == "history" else 20 if c["kind"] == "builtin" else 1


def design(tier):
    return [("DatasetCache", "DatasetCache_design.cfg")]


def generate(tier, work):
    return [vh.generate("DatasetCache", "DatasetCache_hist.cfg", work)]


def dress(r, a, ds):
    a = dict(a)
    if "ds" in a:
        a["ds"] = ds
    if a["op"] == "load" and a["net"] == "down":
        a["net"] = r.choice(DOWN)
    return a


def cases(tier, rng, scen):
    q = tier == "quick"
    hs = scen["DatasetCache"]
    for i, s in enumerate(rng.sample(hs, min(len(hs), 260 if q else 6000))):
        r = random.Random("P22s%d" % i)
        ds = r.choice(NAMES)
        acts = [dress(r, a, ds) for a in s["acts"]]
        yield {"id": "tlc%d" % i, "kind": "history", "acts": acts + probes([ds]), "seed": i}
    for i in range(60 if q else 900):
        r = random.Random("P22/%d/%s" % (i, rng.random()))
        dss = r.sample(NAMES, r.randint(1, 4))
        acts = []
        for _ in range(r.randint(4, 14)):
            z = r.random()
            if z < 0.2: acts.append({"op": "publish", "ds": r.choice(dss)})
            elif z < 0.26: acts.append({"op": "clear"})
            else:
                acts.append({"op": "load", "ds": r.choice(dss), "force": r.random() < 0.5, "net": "ok" if r.random() < 0.6 else r.choice(DOWN),
                             "disk": r.choice(["ok", "ok", "ok", "full", "crash"])})
        yield {"id": "walk%d" % i, "kind": "history", "acts": acts + probes(dss), "seed": 5000 + i}
    for i in range(160 if q else 2500):
        r = random.Random("P22r/%d/%s" % (i, rng.random()))
        yield {"id": "csv%d" % i, "kind": "recode", "ds": NAMES[i % 4], "seed": "%s" % r.random()}
    for n in NAMES:
        yield {"id": "builtin_" + n, "kind": "builtin", "ds": n, "seed": rng.randrange(1000)}
    yield {"id": "names", "kind": "names"}
    for i in range(2):
        yield {"id": "locale%d" % i, "kind": "recode", "ds": "card_krueger", "seed": "locale%d" % i, "locale": True}


def probes(dss):
    return [{"op": "load", "ds": d, "force": False, "net": "url", "disk": "ok"} for d in dss]


# ---------------------------------------------------------------- the world
class Response(io.BytesIO):
    """what urlopen returns; reading may fail"""
    def __init__(self, body, fault):
        super().__init__(body)
        self.fault, self.status, self.code, self.reason, self.url = fault, 200, 200, "OK", "https://example.invalid/"
        self.headers = self.msg = email.message.Message()
        self.headers["Content-Length"] = str(len(body))
        self.length = len(body)

    def getcode(self): return 200
    def info(self): return self.headers
    def geturl(self): return self.url
    def getheader(self, n, d=None): return self.headers.get(n, d)

    def _trip(self):
        if self.fault == "read_timeout": raise TimeoutError("The read operation timed out")
        if self.fault == "read_reset": raise ConnectionResetError(104, "Connection reset by peer")
        if self.fault == "truncated": raise http.client.IncompleteRead(self.getvalue()[:20], len(self.getvalue()) - 20)

    def read(self, *a):
        self._trip()
        return super().read(*a)
    read1 = read

    def readinto(self, b):
        self._trip()
        return super().readinto(b)


class Net:
    def __init__(self):
        self.body, self.fault, self.opens, self.timed = b"", "ok", 0, True

    def open(self, opener, url, data=None, timeout=None):
        self.opens += 1
        if not (isinstance(timeout, (int, float)) and 0 < timeout < 3600):
            self.timed = False
        u = getattr(url, "full_url", url)
        f = self.fault
        if f == "url": raise urllib.error.URLError("Name or service not known")
        if f == "connect_timeout": raise urllib.error.URLError(TimeoutError("timed out"))
        if f == "refused": raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
        if f == "http404": raise urllib.error.HTTPError(u, 404, "Not Found", email.message.Message(), io.BytesIO(b""))
        if f == "http503": raise urllib.error.HTTPError(u, 503, "Unavailable", email.message.Message(), io.BytesIO(b""))
        if f == "timeout": raise TimeoutError("The read operation timed out")
        if f == "reset": raise ConnectionResetError(104, "Connection reset by peer")
        if f == "disconnected": raise http.client.RemoteDisconnected("Remote end closed connection without response")
        return Response(self.body(u) if callable(self.body) else self.body, f)


@contextlib.contextmanager
def world():
    """a private home, cache directory and network"""
    home = tempfile.mkdtemp(prefix="p22_")
    net = Net()
    import pathlib
    try:
        with mock.patch.dict(os.environ, {"HOME": home, "XDG_CACHE_HOME": home + "/.cache"}), \
             mock.patch.object(datasets, "_CACHE_DIR", pathlib.Path(home) / ".cache" / "diff_diff" / "datasets", create=True), \
             mock.patch.object(urllib.request.OpenerDirector, "open", lambda self, *a, **k: net.open(self, *a, **k)), \
             contextlib.redirect_stdout(io.StringIO()):
            yield net
    finally:
        shutil.rmtree(home, ignore_errors=True)


def body(ds, v):
    """version v of a dataset: the size changes with the version so a half-written copy cannot pass for another version"""
    m = 10 + 7 * v
    if ds == "card_krueger":
        return ("sheet,nj,emp_pre,emp_post,marker\n" + "".join("%d,%d,%d,%d,%d\n" % (i, i % 2, 20 + i, 21 + i, v) for i in range(m))).encode()
    if ds == "castle_doctrine":
        return ("sid,state,year,effyear,cdl,marker\n" + "".join("%d,S%d,%d,,0,%d\n" % (i, i, 2000 + i, v) for i in range(m))).encode()
    if ds == "divorce_laws":
        return ("stfips,state,year,unilateral,marker\n" + "".join("%d,S%d,%d,%d,%d\n" % (i, i // 2, 1970 + i, i % 2, v) for i in range(m))).encode()
    return ("countyreal,year,first.treat,lemp,marker\n" + "".join("%d,%d,%d,%d,%d\n" % (i, 2003 + i % 5, 2004, i, v) for i in range(m))).encode()


def version(ds, df):
    """0 is no whole version"""
    if "marker" not in df.columns:
        return -1
    vs = set(df["marker"].dropna())
    if len(vs) != 1 or df["marker"].isna().any():
        return 0
    v = int(vs.pop())
    return v if len(df) == 10 + 7 * v else 0


def load(ds, force):
    f = {"card_krueger": datasets.load_card_krueger, "castle_doctrine": datasets.load_castle_doctrine, "divorce_laws": datasets.load_divorce_laws, "mpdta": datasets.load_mpdta}[ds]
    return f(force_download=force) if force else f()


def try_load(ds, force, net):
    import warnings
    net.opens, net.timed = 0, True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ans = version(ds, load(ds, force))
            if ans == 0:
                ans = -4
        except Exception as e:
            ans = -2
    return ans, net.opens, net.timed


def forked(limit, die, f):
    """run f where a write beyond `limit` bytes of a file is refused, or kills the process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            out = pickle.dumps(f())
            os.write(wr, out)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as p:
        out = p.read()
    _, status = os.waitpid(pid, 0)
    return pickle.loads(out) if out else (-3 if os.WIFSIGNALED(status) else -5, 0, True)


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], random.getstate())


def do_history(c):
    r = random.Random("P22h%s" % c["seed"])
    served = {d: 1 for d in NAMES}
    np.random.seed(r.randrange(10 ** 6))
    st = rng_state()
    out = []
    with world() as net:
        for a in c["acts"]:
            a = dict(a, ans=0, opens=0, timed=True)
            if a["op"] == "publish":
                served[a["ds"]] += 1
            elif a["op"] == "clear":
                datasets.clear_cache()
            else:
                ds = a["ds"]
                net.fault = a["net"]
                net.body = body(ds, served[ds])
                f = lambda: try_load(ds, a["force"], net)
                if a["disk"] == "ok":
                    a["ans"], a["opens"], a["timed"] = f()
                else:
                    n = len(net.body)
                    a["ans"], a["opens"], a["timed"] = forked(r.choice([0, 1, n // 3, n // 2, n - 8, n - 1]), a["disk"] == "crash", f)
            out.append(a)
    return {"acts": out, "rngkept": rng_state() == st}


# ---------------------------------------------------------------- tables
def raw_table(ds, r):
    n = r.randint(3, 9)
    opt = lambda p: r.random() < p
    if ds == "card_krueger":
        d = {"sheet": r.sample(range(1, 99), n)}
        if opt(0.25): d["state"] = [r.choice(["NJ", "PA"]) for _ in range(n)]
        else: d["nj"] = [r.randint(0, 1) for _ in range(n)]
        if opt(0.2): d["treated"] = [r.randint(0, 1) for _ in range(n)]
        d["emp_pre"] = [dy(r, 0, 40, 2) if opt(0.9) else float("nan") for _ in range(n)]
        d["emp_post"] = [dy(r, 0, 40, 2) if opt(0.9) else float("nan") for _ in range(n)]
        if opt(0.2): d["emp_change"] = [dy(r) for _ in range(n)]
    elif ds == "castle_doctrine":
        d = {"state": [r.choice(["AL", "TX", "NC"]) for _ in range(n)], "year": [r.randint(2000, 2010) for _ in range(n)]}
        if opt(0.6): d["sid"] = [r.randint(1, 50) for _ in range(n)]
        if opt(0.6): d["cdl"] = [r.choice([0, 1, 0.5]) for _ in range(n)]
        if opt(0.7): d["effyear"] = [r.choice([2005.0, 2006.0, 2009.0, float("nan")]) for _ in range(n)]
        else: d["first_treat"] = [r.choice([0, 2005, 2008]) for _ in range(n)]
    elif ds == "divorce_laws":
        d = {"state": [r.choice(["AK", "TX", "NC"]) for _ in range(n)], "year": r.sample(range(1968, 1989), n)}
        if opt(0.6): d["stfips"] = [r.randint(1, 50) for _ in range(n)]
        if opt(0.7): d["unilateral"] = [r.randint(0, 1) for _ in range(n)]
        if "unilateral" not in d or opt(0.2): d["first_treat"] = [r.choice([0, 1970, 1975, 1980]) for _ in range(n)]
    else:
        d = {"countyreal": r.sample(range(1000, 9999), n), "year": [r.randint(2003, 2007) for _ in range(n)], "lemp": [dy(r) for _ in range(n)]}
        d["first.treat" if opt(0.7) else "first_treat"] = [r.choice([0, 2004, 2006, 2007]) for _ in range(n)]
    d["note"] = [r.choice(["plain", "Curaçao", "naïve, quoted", "東京", "x"]) for _ in range(n)]
    keys = list(d)
    r.shuffle(keys)
    return pd.DataFrame({k: d[k] for k in keys})


def enc(s):
    out = []
    for v in s:
        out.append(v if isinstance(v, str) else fl(float(v)))
    return out


CHILD = r"""
import sys, os, io, email.message
sys.path[:0] = sys.argv[1:3]
import P22
from unittest import mock
import pandas as pd
raw = sys.stdin.buffer.read()
with P22.world() as net:
    net.body = raw
    try:
        a = P22.load("card_krueger", False)
        net.fault = "url"
        b = P22.load("card_krueger", False)
        out = ("", a, b)
    except Exception as e:
        out = (type(e).__name__ + ": " + str(e), None, None)
import pickle
sys.stdout.buffer.write(b"@@" + pickle.dumps(out))
"""


def do_recode(c):
    r = random.Random("P22d" + c["seed"])
    df = raw_table(c["ds"], r)
    text = df.to_csv(index=False)
    if r.random() < 0.3:
        text = text.replace("\n", "\r\n")
    if r.random() < 0.2:
        text = text.rstrip("\r\n")
    data = text.encode("utf-8")
    named = True
    if c.get("locale"):
        env = dict(os.environ, LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        here = os.path.dirname(os.path.abspath(__file__))
        p = subprocess.run([sys.executable, "-c", CHILD, here, os.path.join(os.path.dirname(here), "lib")], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
        if b"@@" not in p.stdout:
            return {"ds": c["ds"], "raised": "crash", "msg": p.stderr.decode("utf-8", "replace")[-100:]}
        msg, one, two = pickle.loads(p.stdout.split(b"@@", 1)[1])
        if msg:
            return {"ds": c["ds"], "raised": "error", "msg": msg[:100]}
    else:
        with world() as net:
            net.body = data
            q = Quiet()
            one = q(load, c["ds"], r.random() < 0.3)
            if q.raised:
                return {"ds": c["ds"], "raised": q.raised, "msg": q.raised + ": " + q.msg[:100]}
            net.fault = r.choice(DOWN)
            q = Quiet()
            two = q(load, c["ds"], r.random() < 0.3)
            if q.raised:
                return {"ds": c["ds"], "raised": q.raised, "msg": q.raised + ": " + q.msg[:100]}
            named = bool(datasets.load_dataset(c["ds"]).equals(one))
    raw = {k: enc(df[k]) for k in df.columns if k != "year"}
    if "year" in df:
        raw["year"] = [int(v) for v in df["year"]]
    outc = {k: enc(one[k]) for k in one.columns if k != "year"}
    moved = {"card_krueger": ["sheet"], "castle_doctrine": ["sid", "cdl"], "divorce_laws": ["stfips"], "mpdta": ["first.treat"]}[c["ds"]]
    rest = [k for k in df.columns if k not in moved]
    fresh = {"store_id", "state", "treated", "emp_change", "state_id", "first_treat", "cohort"}
    kept = all(k in one.columns and str(enc(one[k])) == str(enc(df[k])) for k in rest) and set(one.columns) - set(rest) <= fresh
    return {"ds": c["ds"], "raised": "", "msg": "", "n": len(df), "raw": raw, "out": outc, "same": bool(one.equals(two)), "named": named, "restkept": bool(kept)}


COLS = {"card_krueger": ["store_id", "state", "chain", "emp_pre", "emp_post", "wage_pre", "wage_post", "treated", "emp_change"],
        "castle_doctrine": ["state", "year", "first_treat", "homicide_rate", "population", "income", "treated", "cohort"],
        "divorce_laws": ["state", "year", "first_treat", "divorce_rate", "female_lfp", "suicide_rate", "treated", "cohort"],
        "mpdta": ["countyreal", "year", "lpop", "lemp", "first_treat", "treat", "cohort"]}


def do_builtin(c):
    ds = c["ds"]
    np.random.seed(c["seed"])
    st = rng_state()
    with world() as net:
        net.fault = "url"
        q = Quiet()
        a = q(load, ds, False)
        kept = rng_state() == st
        if q.raised:
            return {"ds": ds, "raised": q.raised, "msg": q.msg[:100]}
        np.random.seed(c["seed"] + 1)
        net.fault = "refused"
        b = load(ds, True)
    ev = {"ds": ds, "raised": "", "msg": "", "columns": set(COLS[ds]) <= set(a.columns), "fixed": bool(a.equals(b)), "rngkept": kept}
    unit = {"card_krueger": "store_id", "mpdta": "countyreal"}.get(ds, "state")
    ev["unit"] = [int(x) for x in pd.factorize(a[unit])[0]]
    ev["treated"] = [int(x) for x in a["treat" if ds == "mpdta" else "treated"]]
    if ds == "card_krueger":
        ev.update(state=list(a["state"]), change=fls(a["emp_change"]), pre=fls(a["emp_pre"]), post=fls(a["emp_post"]))
    else:
        ev.update(year=[int(x) for x in a["year"]], ft=[int(x) for x in a["first_treat"]], cohort=[int(x) for x in a["cohort"]])
        ev["first"], ev["last_"] = {"castle_doctrine": (2000, 2010), "divorce_laws": (1968, 1988), "mpdta": (2003, 2007)}[ds]
    return ev


def do_names(c):
    q = Quiet()
    with world() as net:
        net.fault = "url"
        q(datasets.load_dataset, "no_such_dataset")
        known = []
        for n in datasets.list_datasets():
            k = Quiet()
            k(datasets.load_dataset, n)
            if not k.raised:
                known.append(n)
    return {"listed": sorted(datasets.list_datasets()), "known": sorted(known), "unknown": q.raised}


def record(c):
    ev = {"history": do_history, "recode": do_recode, "builtin": do_builtin, "names": do_names}[c["kind"]](c)
    ev["kind"] = c["kind"]
    return [ev]
