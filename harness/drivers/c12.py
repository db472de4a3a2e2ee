"""C12: substitution fails only with SubstitutionError and is idempotent."""
from .. import models as models_
from . import subst

PROP, LEVEL = "C12", "model_checking"
RULE = ("schemas x values: conforming, partial, perturbed, with members no schema can be made from "
        "(every hostile value of the zoo) at any depth, and with `...` placeholders in legal and "
        "illegal places; a returned schema is generated from under extreme draws and substituted again; "
        "non-trivial when the (schema, value) pair is distinct")
ASSUMPTIONS = ["usability of the result is required when every alternative, element and key schema of "
               "the original is satisfiable", "idempotence is judged for plain values"]
N = {"quick": 3500, "thorough": 50000}
describe = subst.describe


def models(tier, seed):
    return models_.grid(subst.grid_cases, tier, seed, laws=True)


def cases(rng, tier, shard, nshards):
    return subst.make_cases(rng, tier, N, plain=.5, custom=rng.random() < .3)


def execute(case):
    return subst.observe("subst12", case, probes=0)


def nontrivial(case, evs):
    return [case["s"], case.get("v", case.get("grid"))]
