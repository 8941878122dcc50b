#!/usr/bin/env python3
"""plant.py BUGS.py [ids]: write /verif/seeded/<id>/ from BUGS (list of dicts id, property, edits, demo, needs, breaks) and try each one
   in a scratch copy: build, demo without/with the change, stable tests, the property's quick check.
   plant.py ID...: only try the existing ones.  NOTEST=1 skips the stable tests; NOCHECK=1 the check."""
import concurrent.futures as cf, importlib.util, json, os, shutil, subprocess, sys
V = os.environ.get("PLANT_V", "/verif")
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# run with cwd /repo\nexport PYTHONPATH="$PWD" DIFF_DIFF_BACKEND=python MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def write(b):
    d = "%s/seeded/%s" % (V, b["id"])
    os.makedirs(d, exist_ok=True)
    c = "/tmp/mk_" + b["id"]
    shutil.rmtree(c, ignore_errors=True)
    rc, out = sh(["git", "-C", "/repo", "worktree", "list"])
    sh(["cp", "-a", "/repo", c])
    sh(["git", "-C", c, "checkout", "-q", "--", "."])
    for f, old, new in b["edits"]:
        s = open(c + "/" + f).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(c + "/" + f, "w").write(s.replace(old, new))
    rc, diff = sh(["git", "-C", c, "diff"])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(c)


def trial(i):
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    c = "/tmp/try_" + i
    shutil.rmtree(c, ignore_errors=True)
    sh(["cp", "-a", "/repo", c])
    sh(["git", "-C", c, "checkout", "-q", "--", "."])
    r = {"id": i, "property": prop}
    r["demo_clean"] = sh(["bash", d + "/demo.sh"], cwd=c)[0]
    rc, out = sh(["git", "-C", c, "apply", d + "/patch.diff"])
    if rc:
        r["apply"] = out
        shutil.rmtree(c)
        return r
    for x in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + x).read().replace("/repo", c)
        open("%s/.%s" % (c, x), "w").write(s)
    rc, out = sh(["bash", c + "/.build.sh"])
    r["build"] = rc if rc == 0 else out[-300:]
    rc, out = sh(["bash", d + "/demo.sh"], cwd=c)
    r["demo_bug"] = (rc, out.strip().splitlines()[-1:] )
    if not os.environ.get("NOTEST"):
        sh(["bash", c + "/.test.sh", c + "/.o.json"])
        rc, out = sh(["python3", "/tmp/w/cmp.py", c + "/.o.json"])
        r["tests"] = out.strip().splitlines()[-1:]
    if not os.environ.get("NOCHECK"):
        rc, out = sh(["bash", V + "/check", prop, "quick"], env=dict(os.environ, VERIF_REPO=c, VERIF_NOEVIDENCE="1"))
        r["check"] = (rc, [x for x in out.splitlines() if x.startswith("  ")][:3], out.strip().splitlines()[-1:])
    shutil.rmtree(c)
    return r


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0].endswith(".py"):
        sp = importlib.util.spec_from_file_location("bugs", a[0])
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        ids = a[1:] or [b["id"] for b in m.BUGS]
        for b in m.BUGS:
            if b["id"] in ids:
                write(b)
    else:
        ids = a
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(trial, ids):
            print(json.dumps(r, indent=1), flush=True)
