"""Development tool: confirm the planted bugs and run the checks against them, in scratch copies.
usage: tools/seeded.py [-c] [-s SEED,...] ID...   (-c: confirm tests and demo too)"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **env):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **env), capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr


def one(i, confirm, seeds):
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    wt = "/tmp/seedwt/" + i
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs("/tmp/seedwt", exist_ok=True)
    sh("cp -a /repo " + wt, "/tmp")
    out = []
    try:
        if confirm:
            rc, o = sh("bash %s/demo.sh" % d, wt, PYTHONPATH=wt)
            out.append("demo0=%d" % rc)
            if rc:
                out.append(o[-600:])
        rc, o = sh("git apply %s/patch.diff" % d, wt)
        if rc:
            return "%s APPLY FAILED %s" % (i, o)
        if confirm:
            rc, o = sh("bash %s/demo.sh" % d, wt, PYTHONPATH=wt)
            out.append("demo1=%d%s" % (rc, "" if rc else " NOT SHOWN"))
            rc, o = sh(PY + " -m pytest -q -x -p no:cacheprovider 2>&1 | tail -5", wt, PYTHONPATH=wt)
            out.append("tests: " + o.strip().split("\n")[-1])
        for s in seeds:
            rc, o = sh("./check --prop %s --tier quick --seed %s" % (meta["property"], s), ROOT,
                       VERIF_REPO=wt, VERIF_SEED=s)
            line = [x for x in o.split("\n") if "violations" in x]
            out.append("%s rc=%d %s" % ("CAUGHT" if "VIOLATION property=" + meta["property"] in o else "MISSED",
                                        rc, line[-1] if line else o[-500:]))
            cl = [x for x in o.split("\n") if "clauses" in x]
            out += [c[:160] for c in cl[:1]]
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return "%s: %s" % (i, "\n    ".join(out))


a = sys.argv[1:]
confirm = "-c" in a
seeds = ["1"]
if "-s" in a:
    seeds = [x for x in a[a.index("-s") + 1].split(",") if x]
    del a[a.index("-s"):a.index("-s") + 2]
ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
for i in ids:
    print(one(i, confirm, seeds), flush=True)
