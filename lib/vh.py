"""Harness: record the real code, validate the recording against the TLA+ specification with TLC.

A property module drivers/<Pxx>.py defines
  SPEC                name of the specification module in spec/
  cases(tier, rng)    -> iterable of case dicts (JSON-able, with a unique "id")
  record(case)        -> list of event dicts (one line of the trace each)
and optionally
  generate(tier, h)   -> list of scenario dicts from TLC (behaviours/structures); passed to cases as scen=
  design(tier)        -> list of (module, cfg) model-checking runs of the design itself
"""
import hashlib, importlib, json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
NPROC = min(8, os.cpu_count() or 4)
CASE_TIMEOUT = 60


# ---------------------------------------------------------------- encoding
def enc(o):
    """JSON with every non-integer number as the exact float it is ("#0x1.8p+3")."""
    import numpy as np
    if o is None:
        return "null"
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        o = int(o)
        return o if -2**31 < o < 2**31 else "#%d" % o
    if isinstance(o, (float, np.floating)):
        o = float(o)
        if math.isnan(o):
            return "#nan"
        if math.isinf(o):
            return "#inf" if o > 0 else "#-inf"
        return "#" + o.hex()
    if isinstance(o, str):
        s = "".join(c if 32 <= ord(c) < 127 else "?" for c in o)
        return s if not s.startswith("#") else "_" + s
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, np.ndarray):
        return enc(o.tolist())
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return [enc(x) for x in sorted(o)]
    if hasattr(o, "item"):
        return enc(o.item())
    return enc(str(o))


class Fl(float):
    """a float; marks values the specification must see as a Num even when integral"""


def fl(x):
    """number or None -> float (NaN for None), so that the trace carries a Num"""
    try:
        return float(x)
    except Exception:
        return float("nan")


class CaseTimeout(BaseException):
    pass


# ---------------------------------------------------------------- recording
def _worker(modname, cases, out):
    os.environ.setdefault("MPLBACKEND", "Agg")
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module(modname)
    timeout = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)

    def onalarm(sig, frm):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    with open(out, "w") as f:
        for c in cases:
            f.write(json.dumps({"begin": c["id"]}) + "\n")
            f.flush()
            signal.alarm(timeout)
            try:
                evs = mod.record(c)
                signal.alarm(0)
                for e in evs:
                    f.write(json.dumps({"case": c["id"], "ev": enc(e)}) + "\n")
            except CaseTimeout:
                f.write(json.dumps({"case": c["id"], "crash": "no result within %d s" % timeout}) + "\n")
            except BaseException as e:          # noqa: the recorder itself could not interpret the code's output
                signal.alarm(0)
                tb = traceback.extract_tb(e.__traceback__)
                where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else "?"
                f.write(json.dumps({"case": c["id"], "crash": "%s: %s (%s)" % (type(e).__name__, str(e)[:300], where)}) + "\n")
            f.flush()


def record_all(modname, cases, work):
    """run the recorder on all cases in NPROC processes; -> [(case_id, event|None, crash|None)] in case order"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    cost = getattr(sys.modules[modname], "cost", lambda c: 1)
    chunks = [[] for _ in range(NPROC)]
    load = [0] * NPROC
    for c in sorted(cases, key=lambda c: -cost(c)):
        i = load.index(min(load))
        chunks[i].append(c)
        load[i] += cost(c)
    procs, outs = [], []
    for i, ch in enumerate(chunks):
        if not ch:
            continue
        out = os.path.join(work, "rec%d.ndjson" % i)
        outs.append((out, ch))
        p = ctx.Process(target=_worker, args=(modname, ch, out))
        p.start()
        procs.append(p)
    for p in procs:
        p.join()
    res = {}
    for (out, ch), p in zip(outs, procs):
        last = None
        if os.path.exists(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "begin" in r:
                    last = r["begin"]
                    res.setdefault(last, [])
                else:
                    res[r["case"]].append((r["case"], r.get("ev"), r.get("crash")))
        if p.exitcode != 0:
            res.setdefault(last, []).append((last, None, "the process died (exit %s)" % p.exitcode))
            todo = [c for c in ch if c["id"] not in res]
            for c in todo:                      # the rest of the chunk, one by one
                q = ctx.Process(target=_worker, args=(modname, [c], out))
                q.start()
                q.join()
                res[c["id"]] = []
                for line in open(out):
                    r = json.loads(line)
                    if "begin" not in r:
                        res[c["id"]].append((c["id"], r.get("ev"), r.get("crash")))
                if q.exitcode != 0:
                    res[c["id"]].append((c["id"], None, "the process died (exit %s)" % q.exitcode))
    flat = []
    for c in cases:
        flat += res.get(c["id"], [])
    return flat


# ---------------------------------------------------------------- TLC
def tlc_argv(cfg, module, extra=(), mem="2g", workers=1):
    return ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", *(["-XX:TieredStopAtLevel=1"] if workers == 1 else []),
            "-cp", ":".join([V + "/tlc/build", TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
            "-DTLA-Library=" + V + "/spec", "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *extra, module]


def emitted(text):
    return [json.loads(x[3:]) for x in text.splitlines() if x.startswith("@@ ")]


def _tlc_start(spec, path, work, k):
    env = dict(os.environ, VTRACE=path, JAVA_TOOL_OPTIONS="")
    env.pop("JAVA_TOOL_OPTIONS")
    md = os.path.join(work, "md%s" % k)
    o = open(os.path.join(work, "tlc%s.out" % k), "w+")
    p = subprocess.Popen(tlc_argv(V + "/spec/Trace.cfg", V + "/spec/%s.tla" % spec, ["-metadir", md]),
                         stdout=o, stderr=subprocess.STDOUT, env=env, cwd=work)
    return p, o


def validate(spec, events, work, deadline):
    """-> list (per event) of (names, failing clauses, error)"""
    n = len(events)
    verdict = [None] * n
    if not n:
        return verdict
    size = [len(e) for e in events]
    k = min(NPROC, max(1, n // 3), max(1, sum(size) // 20000 + 1)) if n > 3 else 1
    shards = [[] for _ in range(k)]
    load = [0] * k
    for i in sorted(range(n), key=lambda i: -size[i]):
        j = load.index(min(load))
        shards[j].append(i)
        load[j] += size[i]
    todo = [(str(j), sorted(s)) for j, s in enumerate(shards) if s]
    rounds = 0
    while todo:
        rounds += 1
        if rounds > 60:
            raise SystemExit("too many TLC restarts")
        run = []
        for name, idx in todo:
            path = os.path.join(work, "ev%s_%d.ndjson" % (name, rounds))
            with open(path, "w") as f:
                for i in idx:
                    f.write(events[i] + "\n")
            p, o = _tlc_start(spec, path, work, "%s_%d" % (name, rounds))
            run.append((name, idx, p, o))
        todo = []
        for name, idx, p, o in run:
            try:
                p.wait(timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            o.seek(0)
            text = o.read()
            o.close()
            done = None
            seen = 0
            for r in emitted(text):
                if "done" in r:
                    done = r
                elif "ev" in r:
                    verdict[idx[r["ev"] - 1]] = (r["names"], r["fail"], r["n"])
                    seen = r["ev"]
            if done and done["done"] == len(idx) == done["of"] and seen == len(idx):
                continue
            if time.time() >= deadline:
                raise SystemExit("TLC did not finish in time on " + spec)
            if seen >= len(idx) or "Error:" not in text:
                sys.stderr.write(text[-3000:])
                raise SystemExit("TLC failed on %s" % spec)
            if seen == 0 and re.search(r"(Parsing|Semantic) (error|Error)|Fatal|\*\*\* Errors|Could not|Unknown operator", text):
                sys.stderr.write(text[-3000:])
                raise SystemExit("specification %s does not load" % spec)
            err = text[text.index("Error:"):][:1500]
            if os.environ.get("VERIF_DEBUG"):
                sys.stderr.write(text[text.index("Error:"):][:6000])
            verdict[idx[seen]] = ([], [["uninterpretable", False, " ".join(err.split())[:600]]], 0)
            rest = idx[seen + 1:]
            if rest:
                todo.append((name + "r", rest))
    return verdict


def model_check(module, cfg, work, mem="4g", workers=NPROC, extra=(), timeout=600):
    """run TLC on a design; -> dict(states, generated, ok, out)"""
    md = tempfile.mkdtemp(dir=work)
    try:
        p = subprocess.run(tlc_argv(V + "/spec/" + cfg, V + "/spec/%s.tla" % module, ["-metadir", md, *extra], mem=mem, workers=workers),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=work, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), -1
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return {"module": module, "ok": rc == 0, "rc": rc, "generated": int(m.group(1)) if m else 0,
            "states": int(m.group(2)) if m else 0, "out": out}


def generate(module, cfg, work, **kw):
    """scenarios emitted by TLC while it enumerates the reachable states of `module`"""
    r = model_check(module, cfg, work, **kw)
    if not r["ok"]:
        sys.stderr.write(r["out"][-3000:])
        raise SystemExit("TLC could not generate from %s" % module)
    # TLC's workers emit in any order
    r["scenarios"] = sorted((x["scen"] for x in emitted(r["out"]) if "scen" in x), key=lambda v: json.dumps(v, sort_keys=True))
    return r


# ---------------------------------------------------------------- known findings
def known(prop):
    p = os.path.join(V, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                if r.get("property") == prop and r.get("status") == "open":
                    out.append(r)
    return out


def short(detail):
    s = detail if isinstance(detail, str) else json.dumps(detail)
    return s[:240]


# ---------------------------------------------------------------- main
def build_java():
    src = V + "/tlc/java/tlc2/module/Num.java"
    cls = V + "/tlc/build/tlc2/module/Num.class"
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        tmp = tempfile.mkdtemp(prefix="vjava")
        subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src], check=True)
        os.makedirs(V + "/tlc/build", exist_ok=True)
        shutil.copytree(tmp, V + "/tlc/build", dirs_exist_ok=True)
        shutil.rmtree(tmp)


def main(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    build_java()
    sys.path[:0] = [V + "/drivers", V + "/lib"]
    work = tempfile.mkdtemp(prefix="vh_%s_" % prop)
    try:
        return _main(prop, tier, only, t0, seed, deadline, work)
    finally:
        if os.environ.get("VERIF_KEEP"):
            sys.stderr.write("work dir kept: %s\n" % work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def _main(prop, tier, only, t0, seed, deadline, work):
    modname = prop
    mod = importlib.import_module(modname)
    rng = random.Random("%s/%d" % (prop, seed))
    cov = {}
    design = []
    tm = {}

    def lap(name):
        tm[name] = round(time.time() - t0 - sum(tm.values()), 1)
    for module, cfg in (mod.design(tier) if hasattr(mod, "design") and not only else []):
        r = model_check(module, cfg, work)
        design.append(r)
    lap("design")
    scen = None
    gen = []
    if hasattr(mod, "generate"):
        gen = mod.generate(tier, work)
        scen = {g["module"] if "name" not in g else g["name"]: g["scenarios"] for g in gen}
    lap("generate")
    cases = list(mod.cases(tier, rng, scen) if scen is not None else mod.cases(tier, rng))
    if only:
        cases = [c for c in cases if c["id"] == only]
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    rec = record_all(modname, cases, work)
    lap("record")
    live = [(i, r) for i, r in enumerate(rec) if r[1] is not None]
    lines = [json.dumps(r[1], separators=(",", ":")) for _, r in live]
    verd = validate(mod.SPEC, lines, work, deadline)
    lap("validate")

    # ---- collect
    fails = []                  # (case, clause, detail)
    clause_count = {}
    nclauses = [0]
    for (i, r), v in zip(live, verd):
        names, fl_, nc = v
        nclauses[0] += nc
        for nme in names:
            clause_count[nme] = clause_count.get(nme, 0) + 1
        for c in fl_:
            fails.append((r[0], c[0], short(c[2] if len(c) > 2 else "")))
    for r in rec:
        if r[2] is not None:
            fails.append((r[0], "no_observation", r[2]))
    for d in design:
        if not d["ok"]:
            tail = [x for x in d["out"].splitlines() if "rror" in x or "violated" in x][:3]
            fails.append(("design/" + d["module"], "design", "; ".join(tail)))
    missing = set(getattr(mod, "EXPECT", [])) - set(clause_count)
    kf = known(prop)
    used, viol, quiet = {}, [], 0
    for case, clause, detail in fails:
        hit = None
        for k in kf:
            if case == k["case"] and clause in k["clauses"]:
                hit = k
        if hit:
            used.setdefault(hit["id"], []).append((case, clause, detail))
            quiet += 1
        else:
            viol.append((case, clause, detail))
    for k in kf:
        if k["id"] in used:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif not only:
            print("note: known finding %s was not observed in this run" % k["id"])
    if missing and not only:
        print("note: clauses never evaluated: %s" % sorted(missing))

    # ---- replay files
    bycase = {c["id"]: c for c in cases}
    if viol:
        rdir = os.path.join(V, "replays", prop) if REPO == "/repo" else os.path.join("/tmp/replays", prop)
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for case, clause, detail in viol:
            shown.setdefault(case, []).append((clause, detail))
        for k, (case, cl) in enumerate(shown.items()):
            if k >= 8:
                print("... and %d more failing cases" % (len(shown) - 8))
                break
            fn = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_.-]", "_", case)[:80] + ".json")
            with open(fn, "w") as f:
                json.dump({"property": prop, "case": bycase.get(case, {"id": case}), "tier": tier, "seed": seed,
                           "failing": cl, "how": "/verif/replay %s" % fn,
                           "events": [r[1] for r in rec if r[0] == case]}, f, indent=1, default=str)
            for clause, detail in cl[:4]:
                print("  %s: %s: %s" % (case, clause, detail))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(fn, V)))

    # ---- evidence
    if not only and not os.environ.get("VERIF_NOEVIDENCE"):
        nontriv = getattr(mod, "nontrivial", lambda ev: True)
        distinct = len({hashlib.sha1(ln.encode()).hexdigest() for ln, (i, r) in zip(lines, live) if nontriv(r[1])})
        level = getattr(mod, "LEVEL", "exploration")
        sample = [json.loads(x) for x in lines[:: max(1, len(lines) // 2)][:2]]
        for s in sample:
            trim(s)
        cov = {"evaluations": len(lines), "distinct_nontrivial": distinct, "rule": getattr(mod, "RULE", "every recorded event; distinct by content"),
               "samples": sample, "cases": len(cases), "clause_evaluations": nclauses[0], "events_per_clause": clause_count,
               "known_findings_observed": {k: len(v) for k, v in used.items()},
               "tlc_design_runs": [{"module": d["module"], "states": d["states"], "generated": d["generated"]} for d in design],
               "tlc_generation_runs": [{"module": g["module"], "states": g["states"], "scenarios": len(g["scenarios"])} for g in gen],
               "seconds": tm}
        if level == "model_checking":
            cov["states"] = sum(d["states"] for d in design) + sum(g["states"] for g in gen) + len(lines)
            cov["transitions"] = sum(d["generated"] for d in design) + sum(g["generated"] for g in gen) + len(lines)
            cov["traces_validated_against_impl"] = len(lines)
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(V + "/evidence/%s.json" % prop, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                       "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)}, f, indent=1)
    print("%s %s: %d cases, %d events, %d clause evaluations, %d violations, %d known (%.1f s: %s)" % (
        prop, tier, len(cases), len(lines), nclauses[0], len(viol), quiet, time.time() - t0,
        " ".join("%s %.1f" % x for x in tm.items())))
    return 1 if viol else 0


def trim(o, n=12):
    if isinstance(o, dict):
        for k in list(o):
            if isinstance(o[k], list) and len(json.dumps(o[k])) > 1500:
                o[k] = o[k][:n] + ["... %d in all" % len(o[k])]
            else:
                trim(o[k], n)
    elif isinstance(o, list):
        for x in o:
            trim(x, n)
