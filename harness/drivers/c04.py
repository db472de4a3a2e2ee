"""C04: substitution pins the value, and keeps the rest."""
from .. import core
from .. import models as models_
from . import subst

PROP, LEVEL = "C04", "model_checking"
RULE = ("schemas x plain values fitting them (complete, or dicts with keys left out at any depth), "
        "probed with: values generated from the result under low/high/other draw tapes, the value laid "
        "over other conforming values, one-step perturbations of all of these, values constructed to "
        "conform to the result; non-trivial when the substitution succeeded and the (schema, value) "
        "pair is distinct")
ASSUMPTIONS = ["float data counts as carried within twice math.isclose's default tolerance or within a "
               "declared precision"]
N = {"quick": 2200, "thorough": 30000}
describe = subst.describe


def models(tier, seed):
    return models_.grid(subst.grid_cases, tier, seed, laws=True)


def cases(rng, tier, shard, nshards):
    return subst.make_cases(rng, tier, N, plain=1.0, custom=rng.random() < .3)


def execute(case):
    return subst.observe("subst4", case, idem=False)


def nontrivial(case, evs):
    return [case["s"], case.get("v", case.get("grid"))] if any(e["outcome"] == "ok" for e in evs) else None
