"""C15: == between schemas is structural, == with a value is validation."""
import copy
import json
import random

from .. import build, core, enc, gen, models as models_, zoo
from ..common import show
from ..mutate import mutate, nodes

ALIKE = [ks for ks in zoo.ALIKE if ks[0] == ks[0]]

PROP, LEVEL = "C15", "model_checking"
RULE = ("schemas of MC_Schemas, and random ones: "
        "pairs and triples of schemas: independent builds of one declaration (refinements in different "
        "orders), custom types deriving from one another, one-place changes of it (any parameter, key, optionality flag, element, alternative, "
        "marker, at any depth), chains of two changes; compared both ways with == and !=, with their "
        "verdicts on values aimed at telling them apart; and schema == value; non-trivial when the "
        "triple is distinct")
ASSUMPTIONS = ["custom types compare by their props (the harness's do)"]
N = {"quick": 1500, "thorough": 30000}


def models(tier, seed):
    """The schemas of MC_Schemas, each with itself and with others of its type."""
    def parse(out):
        rng = random.Random("pairs/%s" % seed)
        groups, n = {}, {"quick": 6, "thorough": 60}[tier]
        for b in sorted(models_.behs(out), key=lambda b: json.dumps(b["s"], sort_keys=True)):
            groups.setdefault(b["s"]["t"], []).append(b)
        r = []
        for bs in groups.values():
            for i, x in enumerate(bs):
                # sorted: the next ones differ little from this one
                near = bs[i + 1:i + 1 + n // 2] + [rng.choice(bs) for _ in range(n // 2)] + [x]
                for y in near:
                    ws = x["vs"] + [v for v in y["vs"] if v not in x["vs"]]
                    r.append({"a": x["s"], "b": y["s"], "c": rng.choice([x, y, rng.choice(bs)])["s"],
                              "seed": rng.randrange(1 << 30), "ws": rng.sample(ws, min(len(ws), 14))})
        return r
    return [{"module": "MC_Schemas", "cfg": "MC_Schemas.cfg", "parse": parse}]


def cases(rng, tier, shard, nshards):
    gs = [gen.Gen(rng, custom=c, otherzoo=zoo.JUDGED) for c in (True, False, False)]
    for _ in range(N[tier]):
        g = rng.choice(gs)
        a = g.schema(rng.choice([0, 0, 1, 1, 2, 3]))
        if rng.random() < .04:
            a = gen.S("str", pattern=[gen.pattern(g.regex_tree(2, validate=True))])
        c = rng.random()
        if c < .25:
            b = copy.deepcopy(a)
        elif c < .95:
            b = mutate(a, rng)
        else:
            b = g.schema(1)
        if c < .4:
            b = alike(a, b, rng)
        if rng.random() < .08:      # the same, but for the type of one custom schema
            if not any(n["t"] == "custom" for n in nodes(a)):
                n = rng.choice(nodes(a))
                if n["t"] not in ("ell", "dict"):
                    inner = dict(n)
                    n.clear()
                    n.update(t="custom", name="Forward", inner=inner)
            b = copy.deepcopy(a)
            for n in nodes(rng.choice([a, b])):
                if n["t"] == "custom":
                    n["name"] = rng.choice(["Heir", "Forward"])
        d = copy.deepcopy(rng.choice([a, b])) if rng.random() < .6 else mutate(b, rng)
        yield {"a": a, "b": b, "c": d, "seed": rng.randrange(1 << 30)}


def alike(a, b, rng):
    """One key of a becomes one that prints like another; b (a copy, or not) has that other."""
    ds = [n for n in nodes(a) if n["t"] == "dict" and n["keys"]]
    if not ds:
        return b
    n = rng.choice(ds)
    ks = [i for i, k in enumerate(n["keys"][0]) if k[0]["k"] != "ell"]
    x, y = rng.sample(rng.choice(ALIKE), 2)
    if not ks:
        n["keys"][0].append([enc.enc("a"), {"t": "none"}, False])
        ks = [len(n["keys"][0]) - 1]
    i = rng.choice(ks)
    n["keys"][0][i][0] = enc.enc(y)
    b = copy.deepcopy(a)
    n["keys"][0][i][0] = enc.enc(x)
    return b


def compare(x, y):
    out = []
    for f in (lambda: x == y, lambda: x != y):
        r, exc = core.call(f)
        out.append("raised " + exc if exc else "true" if r is True else "false" if r is False
                   else "not a bool")
    return out


def execute(case):
    from d42 import validate
    r = random.Random(case["seed"])
    ss = []
    for k in "abc":
        try:
            ss.append(build.build(case[k], r))
        except Exception:
            ss.append(None)
    if ss[0] is None:
        return []
    if ss[1] is None:
        ss[1] = build.build(case["a"], r)
    if ss[2] is None:
        ss[2] = ss[1]
    a, b, c = ss
    try:
        twin = build.build(enc.proj(a), r)
    except Exception:
        twin = a
    pa, pb = enc.proj(a), enc.proj(b)
    ev = {"op": "eq", "a": pa, "b": pb, "aa": compare(a, a), "twin": compare(a, twin),
          "ab": compare(a, b), "ba": compare(b, a), "bc": compare(b, c), "ac": compare(a, c),
          "ca": compare(c, a), "ws": []}
    g = gen.Gen(r)
    cand = []
    for p in (pa, pb, pa, pb, pb):
        try:
            v = g.conf(p)
            cand += [v, g.perturb(v)]
        except (gen.GiveUp, TypeError, OverflowError):
            pass
    for w in map(enc.dec, case["ws"]) if "ws" in case else cand:
        ra, e1 = core.call(validate, a, w)
        rb, e2 = core.call(validate, b, w)
        if not e1 and not e2:
            ev["ws"].append({"w": enc.enc(w), "a": not ra.has_errors(), "b": not rb.has_errors()})
    out = [ev]
    vs = []
    try:
        vs.append(g.conf(pa))
        vs.append(g.perturb(vs[0]))
    except (gen.GiveUp, TypeError, OverflowError):
        pass
    gz = gen.Gen(r, otherzoo=zoo.JUDGED)
    vs.append(gz.hostile() if r.random() < .3 else gz.value(1))
    for v in vs:
        res, exc = core.call(validate, a, v)
        if not exc:
            out.append({"op": "eqv", "s": pa, "v": enc.enc(v), "eq": compare(a, v),
                        "ok": not res.has_errors()})
    return out


def nontrivial(case, evs):
    return [case["a"], case["b"], case["c"]]


def describe(case, ev):
    if ev["op"] == "eqv":
        return "%s == %r : %s, validates %s" % (show(ev["s"]), enc.dec(ev["v"]), ev["eq"], ev["ok"])
    return "%s  ==  %s : aa=%s twin=%s ab=%s ba=%s bc=%s ac=%s ca=%s ws=%s" % (
        show(ev["a"]), show(ev["b"]), ev["aa"], ev["twin"], ev["ab"], ev["ba"], ev["bc"], ev["ac"], ev["ca"],
        [(repr(enc.dec(x["w"]))[:120], x["a"], x["b"]) for x in ev["ws"]])
