"""C08: validation is total and failing is reporting."""
import random

from .. import build, core, enc, gen, models as models_, zoo
from ..common import show

PROP, LEVEL = "C08", "model_checking"
RULE = ("every pair of MC_Schemas/MC_SchemasDeep, and: "
        "a zoo of hostile values (numbers outside float range, non-finite floats, Decimal/Fraction, "
        "containers and mappings of every stdlib kind, subclasses of built-ins, enums, cyclic and very "
        "deep containers, unprintable ints, lone surrogates, odd keys, opaque and uncopyable objects) "
        "alone, or put at a random position (value or dict key) of a value conforming to the schema; "
        "non-trivial when the (schema, value) pair is distinct")
ASSUMPTIONS = ["objects whose own special methods raise are outside the property"]

N = {"quick": 700, "thorough": 14000}


def put_key(v, rng):
    """Replace/add one odd dict key somewhere."""
    ds = []

    def walk(x):
        if type(x) is dict:
            ds.append(x)
            for y in x.values():
                walk(y)
        elif type(x) is list:
            for y in x:
                walk(y)
    walk(v)
    if ds:
        if rng.random() < .15:
            d = rng.choice(ds)
            for k in rng.choice(zoo.ALIKE):
                d[k] = 1
            return v
        rng.choice(ds)[rng.choice(zoo.ZKEYS)] = rng.choice([1, None, "x", zoo.ITEMS["object"]])
    return v


def models(tier, seed):
    return models_.grid(models_.each_value(), tier, seed)


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, otherzoo=zoo.ALL, neg=.08)
    simple = [gen.S(t) for t in ("none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime",
                                 "date", "list", "dict", "any")]
    if shard == 0:
        for s in simple:
            for v in zoo.ALL:
                yield {"s": s, "v": enc.enc(v), "seed": 0}
    for _ in range(N[tier]):
        s = g.schema(rng.choice([0, 1, 2, 2, 3]))
        for _ in range(4):
            c = rng.random()
            try:
                v = g.conf(s) if c < .8 else g.hostile()
            except gen.GiveUp:
                v = g.hostile()
            if c < .8:
                for _ in range(rng.choice([1, 1, 2])):
                    try:
                        v = g.perturb(v, hostile=True) if rng.random() < .75 else put_key(v, rng)
                    except (TypeError, RecursionError, OverflowError):
                        break
            try:
                ev = enc.enc(v)
            except RecursionError:
                continue
            yield {"s": s, "v": ev, "seed": rng.randrange(1 << 30)}


def execute(case):
    from d42 import validate, validate_or_fail
    from d42.validation import Formatter, ValidationException, format_result
    try:
        s = build.build(case["s"], random.Random(case["seed"]))
    except Exception:
        return []
    v = enc.dec(case["v"])
    ev = {"op": "total", "raised": "", "nerr": 0, "badmsg": 0, "fmtexc": "", "vof": "", "lines": -1,
          "fmtres": "", "reslines": 0, "eqexc": "", "multi": False}
    r, exc = core.call(validate, s, v)
    if exc:
        return [dict(ev, raised=exc)]
    errs = r.get_errors()
    ev["nerr"] = len(errs)
    fm = Formatter()
    for e in errs:
        m, exc = core.call(e.format, fm)
        if exc:
            ev["fmtexc"] = exc
        elif not isinstance(m, str) or not m.strip():
            ev["badmsg"] += 1
        elif "\n" in m:
            ev["multi"] = True
    try:
        with core.cpu_limit(20):
            x = validate_or_fail(s, v)
        ev["vof"] = "true" if x is True else "other value"
    except ValidationException as e:
        ev["vof"] = "exception"
        ev["lines"] = len([x for x in str(e).split("\n") if x.strip()])
    except core.HarnessTimeout:
        ev["vof"] = "HarnessTimeout"
    except BaseException as e:  # noqa
        ev["vof"] = type(e).__name__
    x, exc = core.call(format_result, r)
    ev["fmtres"] = exc or ""
    ev["reslines"] = 0 if exc or not x else len(x) - 1
    x, exc = core.call(lambda: s == v)
    ev["eqexc"] = exc or ""
    return [ev]


def nontrivial(case, evs):
    return [case["s"], case["v"]]


def describe(case, ev):
    return "%s <- %s : %s" % (show(case["s"]), str(case["v"])[:300], ev)
