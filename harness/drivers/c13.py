"""C13: unions, sums, make_required, aliases and members against their parts."""
import random

from .. import build, core, enc, gen, models as models_
from ..common import show

PROP, LEVEL = "C13", "model_checking"
RULE = ("every combination of MC_Combine, and random ones: "
        "combinations of random schemas: | (any number of operands, any grouping), schema.any with nested "
        "unions, + of 2-3 dicts with overlapping keys, make_required over every kind of key selection, "
        "aliases (nested), indexing and iteration; probed with values conforming to the parts, merged "
        "from them, and perturbed; non-trivial when the combination is distinct and some probe is "
        "accepted and some is rejected")
ASSUMPTIONS = ["bare schema.dict as both operands of + is not judged"]
N = {"quick": 1500, "thorough": 30000}


def models(tier, seed):
    return models_.combine(tier, seed)


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, custom=rng.random() < .3)
    for _ in range(N[tier]):
        c = rng.random()
        case = {"seed": rng.randrange(1 << 30)}
        if c < .35:
            n = rng.choice([2, 2, 3, 4])
            case.update(kind="union", how=rng.choice(["or", "any", "nested", "group"]),
                        parts=[g.schema(rng.choice([0, 1, 2])) for _ in range(n)])
            if rng.random() < .3:
                case["parts"][rng.randrange(n)] = dict(gen.S("any"), types=[[g.schema(1), g.schema(0)]])
        elif c < .65:
            case.update(kind="sum", how="+", parts=[g.s_dict(2) for _ in range(rng.choice([2, 2, 2, 3]))])
            if not case["parts"][0]["keys"] and not any(p["keys"] for p in case["parts"]):
                continue
        elif c < .85:
            d = g.s_dict(2)
            if rng.random() < .5:
                case.update(kind="requiredall", how="default", parts=[d])
            else:
                ks = [k for k, _, _ in (d["keys"][0] if d["keys"] else []) if k["k"] != "ell"]
                ks = [k for k in ks if rng.random() < .5]
                case.update(kind="required", how=rng.choice(["list", "tuple", "set"]), parts=[d], keys=ks)
        else:
            case.update(kind="same", how=rng.choice(["alias", "alias2"]), parts=[g.schema(2)])
        yield case


def probes(case, r):
    g = gen.Gen(r)
    ps, out = case["parts"], []

    def conf(p):
        try:
            return g.conf(p)
        except gen.GiveUp:
            return g.value(1)
    for p in ps:
        v = conf(p)
        out += [v, g.perturb(v)]
    if case["kind"] not in ("union", "same"):
        for _ in range(4):
            m = {}
            for p in r.sample(ps, len(ps)) if r.random() < .3 else ps:
                v = conf(p)
                if type(v) is dict:
                    m.update(v)
            for p in ps:        # optional keys, too
                for k, s, o in (p["keys"][0] if p["keys"] else []):
                    if k["k"] != "ell" and r.random() < .3:
                        m[enc.dec(k)] = conf(s)
            c = r.random()
            if c < .4 and m:
                m.pop(r.choice(list(m)))
            elif c < .5:
                m = g.perturb(m)
            out.append(m)
    out.append(g.value(1))
    return out


def combine(case, r):
    from d42 import schema
    from d42.utils import make_required
    ps = [build.build(p, r) for p in case["parts"]]
    how = case["how"]
    with core.cpu_limit(20):
        if how == "or":
            s = ps[0]
            for p in ps[1:]:
                s = s | p
        elif how == "group":
            s = ps[-1]
            for p in ps[-2::-1]:
                s = p | s
        elif how == "any":
            s = schema.any(*ps)
        elif how == "nested":
            k = r.randint(1, len(ps) - 1)
            s = schema.any(schema.any(*ps[:k]), schema.any(schema.any(*ps[k:])))
        elif how == "+":
            s = ps[0]
            for p in ps[1:]:
                s = s + p
        elif how == "default":
            s = make_required(ps[0])
        elif how in ("list", "tuple", "set"):
            s = make_required(ps[0], {"list": list, "tuple": tuple, "set": set}[how](
                enc.dec(k) for k in case["keys"]))
        elif how == "alias":
            s = schema.alias("N", ps[0])
        else:
            s = schema.alias("M", schema.alias("N", ps[0]))
    return ps, s


def flat(p):
    if p["t"] == "any" and p["types"]:
        return [y for x in p["types"][0] for y in flat(x)]
    return [p]


def execute(case):
    from d42 import validate
    r = random.Random(case["seed"])
    try:
        [build.build(p, r) for p in case["parts"]]
    except Exception:
        return []
    ev = {"op": "combine", "kind": case["kind"], "parts": case["parts"], "keys": case.get("keys", []),
          "exc": "", "ws": [], "got": [], "want": [], "bad": ""}
    out, exc = core.call(combine, case, r)
    if exc:
        return [dict(ev, exc=exc)]
    ps, s = out
    for w in map(enc.dec, case["ws"]) if "ws" in case else probes(case, r):
        res, exc = core.call(validate, s, w)
        if not exc:
            ev["ws"].append({"w": enc.enc(w), "r": not res.has_errors()})
    k = case["kind"]
    try:
        if k == "union":
            ev["want"] = [y for p in ps for y in flat(enc.proj(p))]
            ev["got"] = [enc.proj(x) for x in s]
        elif k != "same":
            decl, _ = declared(case, ps)
            ev["want"] = [[enc.enc(a), b] for a, b in decl]
            ev["got"] = [[enc.enc(a), enc.proj(s[a])] for a in s if a is not ...]
    except Exception as e:
        ev["bad"] = repr(e)
    if k in ("sum", "required", "requiredall"):
        for a in ("absent key", ..., 12345):
            if a is ... or a not in [x for x, _ in declared(case, ps)[0]]:
                _, exc = core.call(lambda: s[a])
                if exc != "KeyError":
                    ev["bad"] = "s[%r]: %s" % (a, exc)
    return [ev]


def declared(case, ps):
    m = {}
    for p, d in zip(case["parts"], ps):
        for i, (k, sub, _) in enumerate(p["keys"][0] if p["keys"] else []):
            if k["k"] != "ell":
                m[enc.dec(k)] = enc.proj(d.props.keys[enc.dec(k)][0])
    return list(m.items()), None


def nontrivial(case, evs):
    rs = {x["r"] for x in evs[0]["ws"]}
    return [case["how"], case["parts"], case.get("keys")] if len(rs) == 2 else None


def describe(case, ev):
    return "%s[%s] %s keys=%s exc=%s bad=%s got=%s want=%s ws=%s" % (
        case["kind"], case["how"], " ; ".join(map(show, case["parts"])),
        [enc.dec(k) for k in ev["keys"]], ev["exc"], ev["bad"], str(ev["got"])[:300], str(ev["want"])[:300],
        [(repr(enc.dec(x["w"]))[:120], x["r"]) for x in ev["ws"]][:8])
