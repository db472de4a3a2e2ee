"""C16: a schema with forwarding custom types against the same schema without them."""
import copy
import random

from .. import build, core, enc, gen, models as models_, zoo
from ..common import show
from ..tape import MODES, tape
from .subst import overlay, partial, placeholders

PROP, LEVEL = "C16", "model_checking"
RULE = ("schemas of MC_Schemas/MC_SchemasDeep, and random ones: "
        "random schemas with custom types that forward every hook wrapped around any of their nodes (list "
        "elements in every list form, typed lists, required and optional dict values, alternatives, alias "
        "targets, roots, customs around customs), each paired with the schema without them: validation of "
        "conforming, perturbed and hostile values, generation under draw tapes, repr, substitution of "
        "conforming, partial, wrong and placeholder values; non-trivial when the pair is distinct")
ASSUMPTIONS = ["the harness's custom class forwards path, value, indent and all other keywords",
               "a custom type around a union directly inside a union is not compared (a built-in union "
               "would be merged into the outer one)"]
N = {"quick": 1000, "thorough": 20000}


def wrap(s, r, p, in_any=False):
    s = dict(s)
    t = s["t"]
    if t == "ell":
        return s
    if t == "list":
        if s["type"]:
            s["type"] = [wrap(s["type"][0], r, p)]
        if s["elems"]:
            s["elems"] = [[wrap(e, r, p) for e in s["elems"][0]]]
    elif t == "dict":
        if s["keys"]:
            s["keys"] = [[[k, wrap(x, r, p), o] for k, x, o in s["keys"][0]]]
    elif t == "any":
        if s["types"]:
            s["types"] = [[wrap(x, r, p, True) for x in s["types"][0]]]
    elif t == "alias":
        s["type"] = wrap(s["type"], r, p)
    if r.random() < p and not (in_any and t == "any"):
        s = {"t": "custom", "name": "Forward", "inner": s}
        if r.random() < .1:
            s = {"t": "custom", "name": "Forward", "inner": s}
    return s


def strip(s):
    s = dict(s)
    t = s["t"]
    if t == "custom":
        return strip(s["inner"])
    if t == "list":
        s["type"] = [strip(x) for x in s["type"]]
        s["elems"] = [[strip(x) for x in es] for es in s["elems"]]
    elif t == "dict":
        s["keys"] = [[[k, strip(x), o] for k, x, o in ks] for ks in s["keys"]]
    elif t == "any":
        s["types"] = [[strip(x) for x in ts] for ts in s["types"]]
    elif t == "alias":
        s["type"] = strip(s["type"])
    return s


def models(tier, seed):
    return models_.grid(grid_cases, tier, seed)


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, sat=True, otherzoo=zoo.JUDGED)
    for _ in range(N[tier]):
        b = g.schema(rng.choice([0, 1, 1, 2, 2, 3]))
        a = wrap(b, rng, rng.choice([.2, .5, 1]))
        if a == b:
            a = {"t": "custom", "name": "Forward", "inner": b}
        yield {"s": a, "seed": rng.randrange(1 << 30)}


def grid_cases(s, vs, rng):
    return [{"s": wrap(s, rng, p), "vs": rng.sample(vs, min(10, len(vs))), "seed": rng.randrange(1 << 30)}
            for p in (.5, 1)]


def errors(s, v):
    from d42 import validate
    res, exc = core.call(validate, s, v)
    if exc:
        return [["raised", exc, ""]]
    out = []
    from d42.validation import Formatter
    f = Formatter()
    for e in res.get_errors():
        m, exc = core.call(e.format, f)
        out.append([type(e).__name__, repr(getattr(e, "path", "")), exc or m])
    return out


def sub(s, v):
    from d42 import substitute
    try:
        with core.cpu_limit(20):
            return substitute(s, v), "ok"
    except core.HarnessTimeout:
        return None, "HarnessTimeout"
    except BaseException as e:  # noqa
        return None, type(e).__name__ + ": " + str(e)[:2000]


def execute(case):
    import d42
    from d42 import validate
    r = random.Random(case["seed"])
    st = strip(case["s"])
    k = r.randrange(1 << 30)
    try:
        b = build.build(st, random.Random(k))
        a = build.build(case["s"], random.Random(k))
    except Exception:
        return []
    g = gen.Gen(r, sat=True, otherzoo=zoo.JUDGED)

    def conf():
        try:
            return g.conf(st)
        except gen.GiveUp:
            return g.value(2)
    ra, ea = core.call(repr, a)
    rb, eb = core.call(repr, b)
    ev = {"op": "custom", "s": case["s"], "ra": ea or ra, "rb": eb or rb, "vals": [], "gens": [], "subs": []}
    for w in case.get("vs", []):
        v = enc.dec(w)
        ev["vals"].append({"w": w, "a": errors(a, v), "b": errors(b, v)})
    for i in range(6 if "vs" not in case else 2):
        v = conf()
        for _ in range([0, 1, 2, 3, 1, 4][i]):
            try:
                v = g.perturb(v, hostile=r.random() < .1)
            except (TypeError, OverflowError):
                pass
        ev["vals"].append({"w": enc.enc(v), "a": errors(a, v), "b": errors(b, v)})
    for mode in ("lo", "hi", r.choice(MODES[2:])):
        with tape(mode, case["seed"]):
            w, exc = core.call(d42.fake, a)
        with tape(mode, case["seed"]):
            _, excb = core.call(d42.fake, b)
        ok = False
        if not exc:
            res, e2 = core.call(validate, a, w)
            ok = not e2 and not res.has_errors()
        ev["gens"].append({"a": exc or "", "b": excb or "", "w": enc.enc(w), "ok": ok})
    given = case.get("vs", [])
    for i in range(4 + len(given)):
        v = conf() if i < 4 else enc.dec(given[i - 4])
        if 0 < i < 4:
            v = partial(v, r)
        try:
            if i == 2:
                v = g.perturb(v)
            elif i == 3:
                v = placeholders(v, r)
            e = enc.enc(v)
        except (TypeError, OverflowError, RecursionError):
            continue
        A, oa = sub(a, v)
        B, ob = sub(b, v)
        x = {"v": e, "a": oa, "b": ob, "ra": "", "rb": "", "ws": []}
        if oa == ob == "ok":
            x["ra"], x["rb"] = (core.call(repr, y)[0] or "raised" for y in (A, B))
            ws = [v]
            for _ in range(3):
                try:
                    ws.append(g.perturb(overlay(v, conf())) if r.random() < .5 else overlay(v, conf()))
                except (TypeError, OverflowError):
                    pass
            for w in ws:
                x["ws"].append({"w": enc.enc(w), "a": errors(A, w), "b": errors(B, w)})
        ev["subs"].append(x)
    return [ev]


def nontrivial(case, evs):
    return case["s"]


def describe(case, ev):
    out = [show(ev["s"]), "repr same: %s" % (ev["ra"] == ev["rb"])]
    if ev["ra"] != ev["rb"]:
        out.append(ev["ra"][:300] + " / " + ev["rb"][:300])
    for x in ev["vals"]:
        if x["a"] != x["b"]:
            out.append("value %r: %s / %s" % (enc.dec(x["w"]), x["a"], x["b"]))
    out += ["gen %s/%s ok=%s" % (x["a"], x["b"], x["ok"]) for x in ev["gens"] if not x["ok"]]
    for x in ev["subs"]:
        if x["a"] != x["b"] or x["ra"] != x["rb"] or any(y["a"] != y["b"] for y in x["ws"]):
            out.append("%% %r: %s / %s; %s / %s %s" % (enc.dec(x["v"]), x["a"], x["b"], x["ra"], x["rb"], [
                y for y in x["ws"] if y["a"] != y["b"]]))
    return " | ".join(out)[:2500]
