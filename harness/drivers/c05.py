"""C05: substitution only narrows."""
from .. import core
from .. import models as models_
from . import subst

PROP, LEVEL = "C05", "model_checking"
RULE = ("schemas x plain values fitting them (complete, or dicts with keys left out at any depth), "
        "probed with: values generated from the result under low/high/other draw tapes, the value laid "
        "over other conforming values, one-step perturbations of all of these, values constructed to "
        "conform to the result; non-trivial when the substitution succeeded and the (schema, value) "
        "pair is distinct")
ASSUMPTIONS = ["acceptances that hinge on float rounding at the tolerance itself are not judged"]
N = {"quick": 2200, "thorough": 30000}
describe = subst.describe


def models(tier, seed):
    return models_.grid(subst.grid_cases, tier, seed, laws=True)


def cases(rng, tier, shard, nshards):
    return subst.make_cases(rng, tier, N, plain=1.0, custom=rng.random() < .3)


def execute(case):
    return subst.observe("subst5", case, probes=9, idem=False)


def nontrivial(case, evs):
    return [case["s"], case.get("v", case.get("grid"))] if any(e["outcome"] == "ok" for e in evs) else None
