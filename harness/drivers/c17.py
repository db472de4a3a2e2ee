"""C17: seeded sequences, in this process (twice, with other work in between) and in fresh
interpreters with other hash seeds."""
import atexit
import json
import os
import random
import subprocess
import sys

from .. import build, enc, gen
from .. import models as models_
from ..common import show
from ..seqgen import histories, sequence

PROP, LEVEL = "C17", "model_checking"
RULE = ("every history of MC_Seeding in three processes, and random ones: "
        "seeds of every accepted kind and sequences of 1-6 random schemas (every type but unfixed uuid4, "
        "datetime, date), some narrowed by substitution; generated in this process, again after unrelated "
        "generation, validation and printing, and in two other interpreters with different hash "
        "randomisation, restarted every 40 sequences; non-trivial when some schema is not constant")
ASSUMPTIONS = ["values are compared in the encoding of harness/enc.py"]
N = {"quick": 450, "thorough": 8000}
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HASHES = ["1", "random"]
BATCH = 48
FREE = ("int", "float", "str", "bytes", "bool", "list", "any", "dict")
PROCS = {}
USED = {}


def clock(s):
    t = s["t"]
    if t in ("uuid4", "datetime", "date"):
        return not s["value"]
    if t == "list":
        return any(map(clock, s["type"])) or any(clock(x) for es in s["elems"] for x in es)
    if t == "dict":
        return any(clock(x) for ks in s["keys"] for _, x, _ in ks)
    if t == "any":
        return any(clock(x) for ts in s["types"] for x in ts)
    return clock(s["type"] if t == "alias" else s["inner"]) if t in ("alias", "custom") else False


def seed_(r):
    return r.choice([["int", r.randint(-10, 10)], ["int", 0], ["int", r.getrandbits(80)], ["int", -1],
                     ["float", r.random()], ["str", r.choice(["", "seed", "é日", "a" * 50])],
                     ["bytes", list(r.choice([b"", b"abc", b"\xff\x00"]))], ["bytearray", [1, 2, 3]]])


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, sat=True, custom=rng.random() < .3)
    for _ in range(N[tier]):
        ss, subs = [], []
        while len(ss) < rng.choice([1, 2, 3, 4, 6]):
            s = g.schema(rng.choice([0, 1, 1, 2, 3]))
            if clock(s):
                continue
            try:
                build.build(s, random.Random(1))
            except Exception:
                continue
            if rng.random() < .15:
                try:
                    subs.append([len(ss), enc.enc(g.conf(s))])
                except gen.GiveUp:
                    pass
            ss.append(s)
        yield {"ss": ss, "subs": subs, "k": seed_(rng), "seed": rng.randrange(1 << 30)}


def child(h):
    if h in PROCS and USED[h] >= 40:
        PROCS.pop(h).stdin.close()
    if h not in PROCS:
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=ROOT + ":" + os.environ.get("VERIF_REPO", "/repo"))
        PROCS[h] = subprocess.Popen([sys.executable, "-m", "harness.seqgen"], cwd=ROOT, env=env, text=True,
                                    stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        USED[h] = 0
        atexit.register(lambda p=PROCS[h]: p.poll() is None and p.kill())
    USED[h] += 1
    return PROCS[h]


def models(tier, seed):
    def parse(out):
        rng = random.Random("seeding/%s" % seed)
        bs = sorted(models_.behs(out), key=lambda b: json.dumps(b, sort_keys=True))
        rng.shuffle(bs)
        for i in range(0, len(bs), BATCH):
            g = gen.Gen(rng, sat=True)
            ss, ws = [], []
            while len(ss) < 3:
                s = g.schema(rng.choice([0, 1, 1, 2]))
                try:
                    build.build(s, random.Random(1))
                    w = g.conf(s)
                except Exception:
                    continue
                if not clock(s) and (s["t"] in FREE or rng.random() < .3):
                    ss.append(s)
                    ws.append(enc.enc(w))
            yield {"histories": [b["ops"] for b in bs[i:i + BATCH]], "at": [b["at"] for b in bs[i:i + BATCH]],
                   "ss": ss, "ws": ws, "keys": [seed_(rng), seed_(rng)], "seed": rng.randrange(1 << 30)}
    return [{"module": "MC_Seeding", "cfg": "MC_Seeding6.cfg" if tier == "thorough" else "MC_Seeding.cfg",
             "parse": lambda out: list(parse(out))}]


def run_histories(case):
    ask = {k: case[k] for k in ("histories", "ss", "ws", "keys", "seed")}
    ps = [child(h) for h in HASHES]
    for p in ps:
        p.stdin.write(json.dumps(ask) + "\n")
        p.stdin.flush()
    runs = [histories(case)] + [json.loads(p.stdout.readline()) for p in ps]
    ids, obs = {}, []
    for run in runs:
        if len(run) != len(case["at"]):
            raise RuntimeError(str(run)[:500])
        for vs, at, ops in zip(run, case["at"], case["histories"]):
            for v, a in zip(vs, [a for a, o in zip(at, ops) if o["o"] == "gen"]):
                if v["k"] == "raised" and v["x"] == "HarnessTimeout":
                    continue
                obs.append({"k": a["k"], "since": a["since"],
                            "v": ids.setdefault(json.dumps(v, sort_keys=True), len(ids) + 1)})
    return [{"op": "seeding", "obs": obs}]


def execute(case):
    import warnings
    warnings.simplefilter("ignore")
    if "histories" in case:
        return run_histories(dict(case))
    ps = [child(h) for h in HASHES]
    for p in ps:
        p.stdin.write(json.dumps(case) + "\n")
        p.stdin.flush()
    runs = [sequence(case), sequence(case, noise=3), sequence(case)]
    for p in ps:
        runs.append(json.loads(p.stdout.readline()))
    if any(x["k"] == "raised" and x["x"] == "HarnessTimeout" for r in runs for x in r):
        return []
    if any(x["k"] == "raised" and x["x"].startswith("harness") for r in runs for x in r):
        raise RuntimeError(str(runs)[:500])
    return [{"op": "seeded", "n": len(case["ss"]), "runs": runs}]


def nontrivial(case, evs):
    if "histories" in case:
        return [case["ss"], case["keys"]]
    return [case["ss"], case["k"]] if any(
        s["t"] in ("list", "dict", "any", "alias") or not s.get("value", [0]) for s in case["ss"]) else None


def describe(case, ev):
    if ev["op"] == "seeding":
        seen = {}
        for o in ev["obs"]:
            seen.setdefault((o["k"], tuple(o["since"])), set()).add(o["v"])
        bad = sorted((k for k in seen if len(seen[k]) > 1), key=lambda k: len(k[1]))
        return "after seed %s, generating %s: %d different values" % (
            case["keys"][bad[0][0] - 1], " ; ".join(show(case["ss"][i - 1]) for i in bad[0][1]), len(seen[bad[0]]))
    out = []
    for i, s in enumerate(case["ss"]):
        vs = [r[i] for r in ev["runs"]]
        if any(v != vs[0] for v in vs):
            out.append("seed %s schema #%d %s: %s" % (case["k"], i, show(s), [
                v["x"] if v["k"] == "raised" else repr(enc.dec(v))[:150] for v in vs]))
    return " | ".join(out)
