"""C01: everything that is generated validates, whatever the draws."""
import json
import random

from .. import build, core, enc, gen, models as models_
from ..common import show
from ..tape import MODES, tape, walk

PROP, LEVEL = "C01", "model_checking"
RULE = ("every schema of the models MC_Schemas/MC_SchemasDeep, and random ones: "
        "satisfiable schemas of every type and form (declared, combined with | any + make_required, "
        "produced by substitution), each generated from under draw tapes: every draw at its lower end, "
        "at its upper end, in the middle, alternating, random, and random mixtures of these, and a walk "
        "through the outcomes of the draws, fewest deviations from the all-lowest and the all-highest "
        "first (every outcome where the draws are few and small); "
        "non-trivial when the (schema, tape) pair is distinct and the generator made a draw or "
        "returned a container")
ASSUMPTIONS = ["draws go through the `random` module's global generator (tests substitute it the same "
               "way); draws made elsewhere are left as they are",
               "schemas with an unsatisfiable alternative/element that generation may visit are a known "
               "finding and judged only in the recorded case"]

N = {"quick": 1000, "thorough": 16000}
WALK = {"quick": 16, "thorough": 200}


def models(tier, seed):
    return models_.grid(lambda s, vs, r: [
        {"how": "dsl", "s": s, "seed": r.randrange(1 << 30), "mode": m, "tseed": r.randrange(1 << 30),
         "budget": WALK[tier]}
        for m in MODES + ["walk"]], tier, seed)


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, sat=True, custom=rng.random() < .4)
    gd = gen.Gen(rng, sat=True, alias=False)
    for _ in range(N[tier]):
        c = rng.random()
        case = {"how": "dsl", "seed": rng.randrange(1 << 30)}
        if c < .62:
            case["s"] = g.schema(rng.choice([0, 0, 1, 1, 2, 3]))
        elif c < .7:
            case.update(how="union", s=g.schema(1), s2=g.schema(2))
        elif c < .78:
            case.update(how="add", s=gd.s_dict(2), s2=gd.s_dict(2))
        elif c < .83:
            case.update(how="required", s=gd.s_dict(2))
        else:
            s = g.schema(rng.choice([1, 2, 2]))
            try:
                v = g.conf(s)
            except gen.GiveUp:
                continue
            if rng.random() < .4:
                v = drop(v, rng)
            case.update(how="subst", s=s, v=enc.enc(v))
        for mode in ["lo", "hi", rng.choice(MODES[2:]), "mix"]:
            yield dict(case, mode=mode, tseed=rng.randrange(1 << 30))
        if rng.random() < .3:
            yield dict(case, mode="walk", tseed=rng.randrange(1 << 30), budget=2 * WALK[tier])


def drop(v, rng):
    if isinstance(v, dict):
        return {k: drop(x, rng) for k, x in v.items() if rng.random() < .7}
    if type(v) is list and rng.random() < .3:
        return v[:-1]
    return v


def make(case):
    from d42 import schema, substitute
    from d42.utils import make_required
    r = random.Random(case["seed"])
    s = build.build(case["s"], r)
    how = case["how"]
    if how == "dsl":
        return s, case["s"]
    if how == "union":
        b = build.build(case["s2"], r)
        s = (s | b) if r.random() < .5 else schema.any(s, b)
    elif how == "add":
        s = s + build.build(case["s2"], r)
    elif how == "required":
        s = make_required(s)
    elif how == "subst":
        s = substitute(s, enc.dec(case["v"]))
    return s, enc.proj(s)


def execute(case):
    import d42
    from d42 import validate
    try:
        s, a = make(case)
    except Exception:
        return []
    f = random.Random(case["tseed"]).choice([d42.fake, d42.generation.generate, lambda s: ~s])
    evs, seen = [], set()

    def one(mode):
        with tape(mode, case["tseed"]) as t:
            v, exc = core.call(f, s)
            draws = t.n
        ev = {"op": "gen", "s": a, "raised": exc or "", "v": {"k": "none"}, "nerr": 0,
              "strict": case.get("strict", False), "draws": draws}
        if exc is None:
            ev["v"] = enc.enc(v)
            r, e2 = core.call(validate, s, v)
            ev["nerr"] = 99 if e2 else len(r.get_errors())
        key = json.dumps([ev["v"], exc, ev["nerr"]])
        if key not in seen:
            seen.add(key)
            evs.append(ev)
    if case["mode"] == "walk":
        whole = walk(one, case["budget"], case["tseed"])
        evs[0]["outcomes"] = [len(evs), whole]
    else:
        one(case["mode"])
    return evs


def tally(case, evs):
    n, whole = evs[0].get("outcomes", (0, False))
    return {"schemas_walked": n > 0, "walked_completely": whole, "distinct_values_of_walks": n}


def nontrivial(case, evs):
    e = evs[0]
    if e["draws"] == 0 and e["v"]["k"] not in ("list", "dict"):
        return None
    return [case["s"], case.get("s2"), case.get("v"), case["mode"],
            case["tseed"] if case["mode"] in ("rand", "mix", "walk") else 0]


def describe(case, ev):
    return "%s %s [%s] -> %s %s nerr=%d" % (
        case["how"], show(ev["s"]), case["mode"], ev["raised"], repr(enc.dec(ev["v"]))[:300], ev["nerr"])
