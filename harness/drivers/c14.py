"""C14: from_native(v) denotes exactly v."""
import random

from niltype import Nil

from .. import core, enc, gen, models as models_, zoo
from ..common import show
from ..tape import MODES, tape

PROP, LEVEL = "C14", "model_checking"
RULE = ("every value of MC_Native against every other, and random ones: "
        "plain values of every kind, nesting and key type, and every non-plain value of the zoo, alone and "
        "nested; each probed with copies, one- and two-step perturbations at any depth, look-alikes "
        "(True/1/1.0/'1', date/datetime, reordered keys) and its own generated values under draw tapes; "
        "non-trivial when the value is distinct")
ASSUMPTIONS = ["instances of subclasses of the plain kinds, and dict keys of other kinds, may be taken "
               "or refused", "values nested deeper than the interpreter's stack may be refused"]
N = {"quick": 2000, "thorough": 40000}


def models(tier, seed):
    def parse(out):
        bs = models_.behs(out)
        ws = next(b["ws"] for b in bs if b["kind"] == "ws")
        return [{"v": b["v"], "seed": i, "ws": ws} for i, b in enumerate(bs) if b["kind"] == "v"]
    return [{"module": "MC_Native", "parse": parse}]


def extra():
    from d42 import schema
    z = enc.ZOO
    if "schema_int" not in z.by_id:
        z.add("schema_int", schema.int)
        z.add("schema_dict", schema.dict({"a": schema.int}))
        z.add("nil", Nil)
    return [z.by_id[n] for n in ("schema_int", "schema_dict", "nil")]


def cases(rng, tier, shard, nshards):
    more = extra()
    g = gen.Gen(rng, otherzoo=zoo.ALL)
    gp = gen.Gen(rng)
    if shard == 0:
        for v in zoo.ALL + more:
            yield {"v": enc.enc(v), "seed": 1}
            yield {"v": enc.enc([1, v]), "seed": 1}
            yield {"v": enc.enc({"a": {"b": v}}), "seed": 1}
    for _ in range(N[tier]):
        v = gp.value(rng.choice([0, 1, 2, 3]), plain=True)
        if rng.random() < .12:
            h = rng.choice([g.hostile(), g.hostile(), rng.choice(more)])
            v = rng.choice([[v, h], {"k": h, "v": v}, [[h]], {"k": [v, {"z": h}]}])
        try:
            yield {"v": enc.enc(v), "seed": rng.randrange(1 << 30)}
        except RecursionError:
            continue


def lookalike(v, r):
    """Something else at one random position."""
    if type(v) is list and v and r.random() < .8:
        i = r.randrange(len(v))
        return v[:i] + [lookalike(v[i], r)] + v[i + 1:]
    if type(v) is dict and v and r.random() < .8:
        k = r.choice(list(v))
        return {q: lookalike(x, r) if q is k else x for q, x in v.items()}
    if type(v) in (bool, int):
        return r.choice([not v, int(v), bool(v), float(v) if abs(v) < 2**60 else str(v), str(v)[:50]]) \
            if abs(v) < 10**100 else v + 1
    if type(v) is dict:
        return dict(reversed(list(v.items())))
    if v is None:
        return r.choice([False, 0, "", [], {}, "None", ...])
    if type(v) is str:
        return r.choice([v.encode("utf8", "replace"), list(v)[:5], v + "\0", v.upper(), [v]])
    if type(v) is list:
        return r.choice([tuple(v), {}, None, [None], v + [None]])
    return r.choice([None, str(v), [v]])


def forced(x):
    if isinstance(x, dict):
        return x.get("k") == "other" and x.get("id") in zoo.FORCED or any(map(forced, x.values()))
    return isinstance(x, list) and any(map(forced, x))


def subbed(x):
    if isinstance(x, dict):
        return "sub" in x or any(map(subbed, x.values()))
    return isinstance(x, list) and any(map(subbed, x))


def execute(case):
    import d42
    from d42 import validate
    from d42.utils import from_native
    extra()
    r = random.Random(case["seed"])
    v = enc.dec(case["v"])
    s, exc = core.call(from_native, v)
    ev = {"op": "native", "v": case["v"], "outcome": exc or "ok", "ws": [], "gens": [], "genexc": "",
          "forced": forced(case["v"]), "sub": subbed(case["v"])}
    if exc or ev["forced"]:
        return [ev]
    g = gen.Gen(r, otherzoo=zoo.JUDGED)
    cand = [v, enc.dec(case["v"])]
    for _ in range(7):
        try:
            w = g.perturb(v, hostile=r.random() < .1)
            if r.random() < .2:
                w = g.perturb(w)
            cand.append(w)
        except (TypeError, OverflowError):
            pass
    cand += [lookalike(v, r) for _ in range(4)] + [g.value(1)]
    if "ws" in case:
        cand = [enc.dec(w) for w in case["ws"]]
    for w in cand:
        res, exc = core.call(validate, s, w)
        if not exc:
            e = {"w": enc.enc(w), "r": not res.has_errors()}
            if e not in ev["ws"]:
                ev["ws"].append(e)
    for mode in ["lo", "hi", r.choice(MODES[2:])]:
        with tape(mode, case["seed"]):
            w, exc = core.call(r.choice([d42.fake, lambda s: ~s]), s)
        if exc:
            ev["genexc"] = exc
        else:
            ev["gens"].append(enc.enc(w))
    return [ev]


def nontrivial(case, evs):
    return case["v"]


def describe(case, ev):
    return "from_native(%s) : %s gen=%s %s ws=%s" % (
        repr(enc.dec(ev["v"]))[:300], ev["outcome"], ev["genexc"],
        [repr(enc.dec(w))[:150] for w in ev["gens"]][:2],
        [(repr(enc.dec(x["w"]))[:150], x["r"]) for x in ev["ws"]][:14])
