"""C03: every error of validate (and of the substitution validator) against the
value it is about."""
import random

from .. import build, core, enc, gen, models as models_, zoo
from ..common import show

PROP, LEVEL = "C03", "model_checking"
RULE = ("every (schema, value) pair of MC_Schemas/MC_SchemasDeep through both validators, and random ones: "
        "non-conforming values made by 1-4 perturbations of conforming ones, over schemas biased to "
        "nested containers; one event per returned error (kind, path, reported value, parameters, "
        "message); non-trivial when the (schema, value, error) triple is distinct and the path is "
        "not empty or the fact needs the schema")
ASSUMPTIONS = ["path keys are read through the accessors th.PathHolder exposes"]

N = {"quick": 900, "thorough": 16000}
MAXERR = 10
KINDS = {"NoneType": "none", "UUID": "uuid"}


def models(tier, seed):
    return models_.grid(lambda s, vs, r: [
        {"s": s, "v": v, "seed": 0, "via": w} for v in vs for w in ("validate", "subst")], tier, seed) + \
        models_.regex(models_.pattern_values(2, via="validate"), tier, seed, .2)


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, custom=rng.random() < .3, otherzoo=zoo.JUDGED, neg=.05)
    for _ in range(N[tier]):
        s = g.schema(rng.choice([1, 2, 2, 2, 3]))
        for _ in range(3):
            try:
                v = g.conf(s) if rng.random() < .95 else g.value(2)
            except gen.GiveUp:
                v = g.value(2)
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                v = g.perturb(v, hostile=rng.random() < .06)
            yield {"s": s, "v": enc.enc(v), "seed": rng.randrange(1 << 30),
                   "via": rng.choice(["validate"] * 4 + ["subst"])}


def path_keys(path):
    return [op._operand for op in path]


class Fields:
    def __init__(self, e):
        self.e = e

    def __getitem__(self, name):
        return getattr(self.e, name)


def encode(e, msg):
    kind = type(e).__name__
    kind = kind[:-len("ValidationError")] if kind.endswith("ValidationError") else kind
    keys = path_keys(e.path)
    r = {"kind": kind, "path": [enc.enc(k) for k in keys], "actual": enc.enc(e.actual_value),
         "keys": [enc.text(repr(k)) for k in keys], "empty": not msg,
         "msg": enc.text(msg) if len(msg) <= 1500 else []}
    g = Fields(e)
    r["says"] = []

    def says(*xs):
        for x in xs:
            try:
                r["says"].append(enc.text(repr(x)))
            except Exception:  # noqa: no printed form
                pass
    if kind == "Type":
        n = getattr(g["expected_type"], "__name__", "?")
        r["type"] = KINDS.get(n, n)
    elif kind == "Value":
        r["exp"] = enc.enc(g["expected_value"])
        says(g["expected_value"])
    elif kind in ("MinValue", "MaxValue"):
        r["exp"] = enc.enc(g["min_value" if kind == "MinValue" else "max_value"])
        says(g["min_value" if kind == "MinValue" else "max_value"])
    elif kind in ("Length", "MinLength", "MaxLength"):
        r["n"] = enc._int(g[{"Length": "length", "MinLength": "min_length",
                             "MaxLength": "max_length"}[kind]])
        says(len(e.actual_value), g[{"Length": "length", "MinLength": "min_length", "MaxLength": "max_length"}[kind]])
    elif kind in ("Alphabet", "Substr"):
        r["t"] = enc.text(g["alphabet" if kind == "Alphabet" else "substr"])
        says(g["alphabet" if kind == "Alphabet" else "substr"])
    elif kind == "Regex":
        r["p"] = g["pattern"]
        says(g["pattern"])
    elif kind in ("MissingElement", "ExtraElement"):
        r["index"] = g["index"]
        r["last"] = enc.text(repr(g["index"]))
        says(g["index"])
    elif kind in ("MissingKey", "ExtraKey"):
        k = g["missing_key" if kind == "MissingKey" else "extra_key"]
        r["key"] = enc.enc(k)
        r["last"] = enc.text(repr(k))
        says(k)
    elif kind == "SchemaMismatch":
        r["n"] = len(g["expected_schemas"])
    elif kind == "InvalidUUIDVersion":
        r["ver"], r["expver"] = g["actual_version"] or 0, g["expected_version"]
    return r


def siblings(case, errs):
    """All the errors of one verdict, told apart by kind, path and facts."""
    if len(errs) < 2:
        return []
    try:
        said = [core.digest(encode(e, "")) for e in errs[:60]]
    except (KeyError, AttributeError):
        return []
    return [{"op": "errors", "s": case["s"], "v": case["v"], "said": said}]


def execute(case):
    from d42 import validate
    from d42.substitution import SubstitutorValidator
    from d42.validation import Formatter
    try:
        s = build.build(case["s"], random.Random(case["seed"]))
    except Exception:
        return []
    v = enc.dec(case["v"])
    if case["via"] == "subst":
        r, exc = core.call(lambda: s.__accept__(SubstitutorValidator(), value=v))
    else:
        r, exc = core.call(validate, s, v)
    if exc:
        return []
    errs = r.get_errors()
    out = siblings(case, errs)
    if len(errs) > MAXERR:
        errs = random.Random(case["seed"]).sample(errs, MAXERR)
    fm = Formatter()
    msgs = []
    for e in errs:
        core.call(e.format, fm)
    for e in errs:
        m, exc = core.call(e.format, fm)
        if exc:
            return []          # C08
        msgs.append(m)
    for e, m in zip(errs, msgs):
        try:
            r = encode(e, m)
        except (KeyError, AttributeError):
            continue
        out.append({"op": "error", "s": case["s"], "v": case["v"], "e": r})
    return out


def nontrivial(case, evs):
    return [case["s"], case["v"]]


def describe(case, ev):
    if ev["op"] == "errors":
        return "%s <- %r : %r" % (show(case["s"]), enc.dec(ev["v"]), ev["said"])
    e = ev["e"]
    return "%s <- %r : %s path=%r actual=%r msg=%s" % (
        show(case["s"]), enc.dec(ev["v"]), e["kind"], [enc.dec(k) for k in e["path"]],
        enc.dec(e["actual"]), enc.untext(e["msg"]))
