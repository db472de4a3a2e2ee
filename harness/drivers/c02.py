"""C02: verdicts of validate / schema == value / validate_or_fail-free entry points
against the meaning of the declaration."""
import random

from .. import build, core, enc, gen, models as models_, zoo
from ..common import show

PROP, LEVEL = "C02", "model_checking"
RULE = ("every (schema, value) pair of MC_Schemas, a share of MC_SchemasDeep's and MC_Regex's, and random ones: "
        "abstract schemas drawn over every built-in type, property combination and list/dict form "
        "(depth <= 3), declared through the DSL in a random refinement order; values conforming by "
        "construction, one-step perturbations of them, and unrelated values; a case is non-trivial "
        "when its (schema, value) pair is distinct and the schema has at least one constraint")
ASSUMPTIONS = ["values and schemas are described to the specification by harness/enc.py",
               "float verdicts that hinge on binary rounding at the tolerance itself are not judged"]

N = {"quick": 1500, "thorough": 30000}


def models(tier, seed):
    return models_.grid(models_.each_value(), tier, seed) + \
        models_.regex(models_.pattern_values(4 if tier == "thorough" else 2), tier, seed)


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, otherzoo=zoo.JUDGED)
    for _ in range(N[tier]):
        s = g.schema(rng.choice([0, 1, 1, 2, 2, 3]))
        for _ in range(4):
            try:
                v = g.conf(s) if rng.random() < .9 else g.value(2)
            except gen.GiveUp:
                v = g.value(2)
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                v = g.perturb(v, hostile=rng.random() < .06)
            yield {"s": s, "v": enc.enc(v), "seed": rng.randrange(1 << 30)}


def execute(case):
    from d42 import validate
    try:
        s = build.build(case["s"], random.Random(case["seed"]))
    except Exception:
        return []
    v = enc.dec(case["v"])
    r, exc = core.call(validate, s, v)
    if exc:
        return []          # totality is C08's
    out = [{"op": "validate", "s": case["s"], "v": case["v"], "ok": not r.has_errors()}]
    e, exc = core.call(lambda: s == v)
    if not exc and isinstance(e, bool) and e != out[0]["ok"]:
        out.append({"op": "validate", "s": case["s"], "v": case["v"], "ok": e})
    return out


def nontrivial(case, evs):
    return [case["s"], case["v"]]


def describe(case, ev):
    return show(case["s"]) + "  <-  %r : ok=%s" % (enc.dec(ev["v"]), ev["ok"])
