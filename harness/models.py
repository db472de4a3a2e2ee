"""Behaviours of the exhaustive models, as cases for the drivers."""
import json
import random
import re


def behs(out):
    r = []
    for line in re.findall(r'^"BEH (.*)"$', out, re.M):
        r.append(json.loads(line.replace('\\"', '"').replace("\\\\", "\\")))
    return r


def grid(make, tier, seed, deep=.15, laws=False):
    """MC_Schemas: make(s, vs, rng) yields cases; of the schemas placed twice, the share `deep` is
    replayed in the quick tier and everything in the thorough one."""
    def parse(rate):
        def f(out):
            rng = random.Random("grid/%s" % seed)
            return [c for b in sorted(behs(out), key=lambda b: json.dumps(b["s"], sort_keys=True))
                    if rate >= 1 or rng.random() < rate for c in make(b["s"], b["vs"], rng)]
        return f
    full = tier == "thorough"
    return [{"module": "MC_Schemas", "cfg": "MC_Schemas.cfg", "parse": parse(1)},
            {"module": "MC_Schemas", "cfg": "MC_SchemasDeepLaws.cfg" if full and laws else "MC_SchemasDeep.cfg",
             "parse": parse(1 if full else deep)}]


def each_value(**more):
    return lambda s, vs, rng: [dict(more, s=s, v=v, seed=rng.randrange(1 << 30)) for v in vs]


def declare(make, tier, seed):
    def parse(out):
        rng = random.Random("declare/%s" % seed)
        return [make(b, rng) for b in behs(out)]
    return [{"module": "MC_Declare", "cfg": "MC_Declare3.cfg", "parse": parse}]


def regex(make, tier, seed, rate=1.0, laws=False):
    """MC_Regex: make(pattern, size, rng) yields cases."""
    from . import gen

    def parse(out):
        rng = random.Random("regex/%s" % seed)
        return [c for b in sorted(behs(out), key=lambda b: json.dumps(b, sort_keys=True))
                if b["n"] < 2 or rate >= 1 or rng.random() < rate
                for c in make(gen.pattern(b["x"]), b["n"], rng)]
    return [{"module": "MC_Regex", "cfg": "MC_Regex.cfg" if laws else "MC_RegexEmit.cfg", "parse": parse}]


def texts(pattern, n, rng, k):
    """k texts near the pattern."""
    from . import gen
    g, out = gen.Gen(rng), []
    for i in range(k):
        t = [rng.choice([97, 98, 97, 98, 48, 10, 33, 95, 65]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        if i % 2:
            try:
                m = g.rgen(pattern["x"])[:12]
                j = rng.randint(0, len(t))
                t = t[:j] + m + t[j:] if rng.random() < .7 else m
            except gen.GiveUp:
                pass
        out.append(t)
    return out


def pattern_values(k, **more):
    """A text schema with the pattern, against texts near it."""
    from . import gen

    def make(p, n, rng):
        s = gen.S("str", pattern=[p])
        return [dict(more, s=s, v={"k": "str", "t": t}, seed=0) for t in texts(p, n, rng, k if n == 2 else 4 * k)]
    return make


def combine(tier, seed):
    """MC_Combine, as cases of C13."""
    hows = {"sum": ["+"], "same": ["alias", "alias2"], "required": ["list", "tuple", "set"]}

    def parse(out):
        rng, bs, vs, cases = random.Random("combine/%s" % seed), behs(out), {}, []
        for b in bs:
            if b["kind"] == "values":
                vs[b["of"]] = b["vs"]
        for b in bs:
            k = b["kind"]
            if k == "values":
                continue
            ws = vs["union" if k in ("union", "same") else "sum"]
            hs = hows.get(k, ["or", "any", "nested", "group"])
            if k == "required":
                hs = [rng.choice(hs)]
            elif len(b["parts"]) == 3:
                hs = rng.sample(hs, 2)
            for h in hs:
                cases.append({"kind": k, "how": h, "parts": b["parts"], "keys": b["keys"], "seed": 0, "ws": ws})
            if k == "required" and not b["keys"]:
                cases.append({"kind": "requiredall", "how": "default", "parts": b["parts"], "seed": 0, "ws": ws})
        return cases
    return [{"module": "MC_Combine", "parse": parse}]
