import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8


def driver(prop):
    return importlib.import_module("harness.drivers." + prop.lower())


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_id(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:12]


def execute(d, case):
    try:
        return d.execute(case)
    except Exception:
        return [{"op": "harness_error", "why": traceback.format_exc()[-1500:]}]


def worker(args):
    prop, tier, seed, shard, path, extra = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(2000)
    d = driver(prop)
    rng = random.Random("%s/%s/%s" % (prop, seed, shard))
    st = {"cases": 0, "events": 0, "distinct": 0, "skipped": 0, "err": None, "errs": 0, "samples": [],
          "model_cases": 0, "tally": {}}
    seen = set()
    with open(path, "w") as f, open(path + ".cases", "w") as g:
        def one(case):
            evs = execute(d, case)
            st["cases"] += 1
            for e in evs:
                if e["op"] == "harness_error":
                    st["errs"] += 1
                    st["err"] = e["why"] + "\ncase: " + canon(case)[:2000]
                    return
            if not evs:
                st["skipped"] += 1
                return
            if hasattr(d, "tally"):
                for k, x in d.tally(case, evs).items():
                    st["tally"][k] = st["tally"].get(k, 0) + int(x)
            key = d.nontrivial(case, evs)
            if key is not None:
                h = hashlib.sha1(json.dumps(key, sort_keys=True).encode()).digest()[:10]
                if h not in seen:
                    seen.add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)
            g.write(canon(case) + "\n")
            for e in evs:
                f.write(json.dumps(e) + "\n")
                f_index.append(st["cases_kept"])
            st["events"] += len(evs)
            st["cases_kept"] += 1
        f_index = []
        st["cases_kept"] = 0
        for case in extra:
            st["model_cases"] += 1
            one(case)
        for case in d.cases(rng, tier, shard, SHARDS):
            one(case)
            if st["errs"] > 20:
                break
    with open(path + ".idx", "w") as f:
        json.dump(f_index, f)
    st["distinct"] = len(seen)
    return st


def known(prop):
    """case id -> description, from the committed known-findings file."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                fname, _, desc = rest.partition(" ")
                name = fname.split("=", 1)[1]
                case = json.load(open(os.path.join(ROOT, "known", name)))
                out[case_id(case)] = (case, desc)
    return out


def judge_cases(d, cases):
    """Execute and judge a few cases; returns [(case, event, clauses)], stats."""
    from . import tlc
    tmp = tempfile.mkdtemp(prefix="vf-")
    try:
        p = os.path.join(tmp, "t")
        evs, owner = [], []
        for c in cases:
            for e in execute(d, c):
                if e["op"] == "harness_error":
                    raise RuntimeError(e["why"])
                evs.append(e)
                owner.append(c)
        with open(p, "w") as f:
            for e in evs:
                f.write(json.dumps(e) + "\n")
        res, s, t, errs = tlc.judge([p], [len(evs)])
        if errs:
            raise RuntimeError(errs[0])
        return [(owner[i], evs[i], cl) for i, cl in res.get(0, [])]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed):
    from . import tlc
    t0 = time.time()
    import d42
    if not os.path.abspath(d42.__file__).startswith(
            os.environ.get("VERIF_REPO", "/repo") + "/"):
        print("machinery error: d42 imported from", d42.__file__)
        return 2
    d = driver(prop)
    states = trans = 0
    model_notes = {}
    extra = []
    for m in d.models(tier, seed) if hasattr(d, "models") else []:
        r = tlc.run(m["module"], m.get("cfg"), env=m.get("env"), simulate=m.get("simulate"))
        states += r.distinct
        trans += r.generated
        got = m["parse"](r.out) if m.get("parse") else []
        if m.get("parse") and not got:
            print("machinery error: model %s emitted nothing" % m["module"])
            return 2
        extra += got
        model_notes[m.get("cfg") or m["module"]] = {
            "distinct_states": r.distinct, "transitions": r.generated, "behaviours_replayed": len(got)}
    kn = known(prop)
    tmp = tempfile.mkdtemp(prefix="vf-")
    try:
        paths = [os.path.join(tmp, "t%d.ndjson" % i) for i in range(SHARDS)]
        jobs = [(prop, tier, seed, i, paths[i], extra[i::SHARDS]) for i in range(SHARDS)]
        with mp.get_context("fork").Pool(SHARDS) as pool:
            stats = pool.map(worker, jobs, chunksize=1)
        broken = [s["err"] for s in stats if s["err"]]
        for e in broken[:1]:
            print("machinery error in driver:\n" + e)
        counts = [s["events"] for s in stats]
        if sum(counts) == 0:
            print("machinery error: no events", flush=True)
            return 2
        t1 = time.time()
        res, s, t, errs = tlc.judge(paths, counts)
        for e in errs[:1]:
            print("machinery error in judging:\n" + e)
        broken += errs
        states += s
        trans += t
        viol = {}
        for sh, vs in res.items():
            if not vs:
                continue
            idx = json.load(open(paths[sh] + ".idx"))
            cases = open(paths[sh] + ".cases").read().splitlines()
            lines = open(paths[sh]).read().split("\n")
            for i, cl in vs:
                c = json.loads(cases[idx[i]])
                viol.setdefault(case_id(c), (c, json.loads(lines[i]), cl))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # known findings are always re-run
    found_known = {}
    for cid, (c, desc) in kn.items():
        v = judge_cases(d, [c])
        if v:
            found_known[cid] = desc
    new = {k: v for k, v in viol.items() if k not in kn}
    samples = [x for st in stats for x in st["samples"]][:3]
    cov = {
        "evaluations": sum(counts), "distinct_nontrivial": sum(st["distinct"] for st in stats),
        "rule": d.RULE, "samples": samples,
        "states": states, "transitions": trans,
        "traces_validated_against_impl": sum(st["cases_kept"] for st in stats),
        "cases": sum(st["cases"] for st in stats), "cases_without_events": sum(
            st["skipped"] for st in stats),
        "models": model_notes, "known_findings": len(found_known),
    }
    for k in {k for st in stats for k in st["tally"]}:
        cov[k] = sum(st["tally"].get(k, 0) for st in stats)
    if hasattr(d, "note"):
        cov["note"] = d.note
    ev = {"property": prop, "tier": tier, "seed": seed, "level": d.LEVEL, "coverage": cov,
          "assumptions": d.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for desc in found_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    print("%s %s seed=%s: %d cases, %d events, %d model states, %.1fs (judge %.1fs), %d violations"
          % (prop, tier, seed, cov["cases"], cov["evaluations"], states, ev["wall_s"],
             time.time() - t1, len(new)))
    if new:
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        worst = sorted(new.items(), key=lambda kv: len(canon(kv[1][0])))
        for cid, (c, e, cl) in worst[:5]:
            p = os.path.join(ROOT, "evidence", "replay", "%s-%s.json" % (prop, cid))
            with open(p, "w") as f:
                json.dump({"property": prop, "clauses": cl, "case": c, "event": e}, f, indent=1)
            print("  clauses:", ",".join(cl), "|", describe(d, c, e))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    return 2 if broken else 0


def describe(d, c, e):
    try:
        return d.describe(c, e)
    except Exception:
        return canon(e)[:2000]


def replay(path):
    r = json.load(open(path))
    d = driver(r["property"])
    v = judge_cases(d, [r["case"]])
    for c, e, cl in v:
        print("clauses:", cl, "|", describe(d, c, e))
    if v:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("no violation")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        rc = replay(a.replay) if a.replay else check(a.prop, a.tier, a.seed)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
