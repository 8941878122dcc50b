"""Two analyses in two threads that hand over in the middle of the library's code"""
import os
import random
import sys
import threading
import numpy as np
import pandas as pd
import diff_diff
import runs
import vh
from du import *

SPEC = "P32_Interleave"
RULE = ("pairs of analyses (every analysis with itself on other data, and with another) in two threads that hand over to each other in the middle of the library's code "
        "after the numbers of lines of schedules enumerated by TLC; non-trivial when both answer and the threads did change places")
CASE_TIMEOUT = 300
HEAVY = ("trop", "sdid", "placebo.perm", "cs.boot", "sa.boot", "rank", "pt.robust")
SIZE = {"lockstep": 1, "short": 9, "middle": 70, "long": 600}
LIB = os.path.dirname(os.path.abspath(diff_diff.__file__))


def nontrivial(ev):
    return ev["switches"] > 1 and all(j["raised"] == "" for j in ev["jobs"])


def cost(c):
    return 30 if any(n.startswith(("trop", "sdid")) for n in c["pair"]) else 6


def design(tier):
    return [("Interleave", "Interleave_design.cfg")]


def generate(tier, work):
    return [vh.generate("Interleave", "Interleave_gen.cfg", work)]


def cases(tier, rng, scen):
    sl = sorted((s["slices"] for s in scen["Interleave"]), key=str)
    names = runs.names()
    for n in names:
        for i in range(2 if tier == "quick" else 16):
            r = random.Random("P32/%s/%d/%s" % (n, i, rng.random()))
            m = n if i % 2 == 0 else r.choice(names)
            lock = i == 0 and not n.startswith(HEAVY)       # hand over at every line, on data of the same shape
            yield {"id": "%s.%d" % (n, i), "pair": [n, m], "slices": ["lockstep"] if lock else r.choice(sl), "lock": lock, "seeds": ["a%d" % r.randrange(10 ** 9), "b%d" % r.randrange(10 ** 9)], "jit": r.randrange(100)}


class Turns:
    """two threads of which one runs; the runner hands over when its slice of traced lines is used up"""

    def __init__(self, slices):
        self.ev = [threading.Event(), threading.Event()]
        self.done = [False, False]
        self.slices, self.i, self.left, self.switches = slices, 0, slices[0], 0

    def hand(self, me):
        if self.done[1 - me]: return
        self.i += 1
        self.left = self.slices[self.i % len(self.slices)]
        self.switches += 1
        self.ev[me].clear()
        self.ev[1 - me].set()
        self.ev[me].wait()

    def tracer(self, me):
        def line(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0: self.hand(me)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(LIB) else None
        return call

    def run(self, me, f):
        self.ev[me].wait()
        sys.settrace(self.tracer(me))
        try: f()
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.ev[1 - me].set()

    def go(self, fs):
        ts = [threading.Thread(target=self.run, args=(k, f), daemon=True) for k, f in enumerate(fs)]
        for t in ts: t.start()
        self.ev[0].set()
        for t in ts: t.join()


def flat(out):
    res = []
    for x in out or []:
        k, role, v, g = x["k"], x["role"], x["v"], x["g"]
        if role in ("t", "p") and not g > 1e-6: continue       # nothing is behind it
        vs = v if isinstance(v, (list, tuple)) else [v]
        for i, z in enumerate(vs):
            if isinstance(z, (list, tuple, dict)): z = str(z)
            res.append({"k": "%s/%d" % (k, i), "role": str(role), "v": z if isinstance(z, (str, type(None))) else fl(z)})
    return res


def record(c):
    dfs, fs = [], []
    for n, s in zip(c["pair"], c["seeds"]):
        tr = runs.R[n]
        o = dict(nu=9) if c["lock"] else {}
        if tr.get("big"): o["nu"] = 16
        if tr.get("xfix"): o.update(xvar=False, nu=12)
        if tr.get("ant"): o["mincoh"] = 2
        dfs.append(runs.base(tr["kind"], s, T=5, start=3, **o))
        fs.append(tr["f"])
    runs.setup(dfs[0])
    one = lambda i, q, d: q(fs[i], d, runs.World())
    kept = [d.copy() for d in dfs]
    qa = [Quiet(), Quiet()]
    alone = [one(i, qa[i], dfs[i]) for i in (0, 1)]
    got, qb = [None, None], [Quiet(), Quiet()]
    t = Turns([SIZE[s] + (0 if c["lock"] else c["jit"] % 7) for s in c["slices"]])

    def job(i):
        def f():
            try: got[i] = fs[i](dfs[i], runs.World())
            except Exception as e: qb[i].raised = type(e).__name__
        return f
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t.go([job(0), job(1)])
    return [{"switches": t.switches, "jobs": [{"run": c["pair"][i], "raised": qa[i].raised, "raised2": qb[i].raised, "pure": dfs[i].equals(kept[i]), "tol": (1e-5 if runs.R[c["pair"][i]].get("loose") else 1e-8) * float(dfs[i]["y"].abs().max()),
             "alone": flat(alone[i]), "beside": flat(got[i])} for i in (0, 1)]}]
