"""C18: rollout against the specification's flattening of nested mappings."""
import json
import re

from .. import core, enc

PROP, LEVEL = "C18", "model_checking"
RULE = ("every mapping of the model MC_Rollout (depth <= 4, small key alphabet, every order of its "
        "flattened entries), and random larger ones with separators of one to three characters, "
        "optional leaves, a top-level ..., and leaves of every kind; the flattened form is the one the "
        "specification gives; non-trivial when distinct and some key is joined")
ASSUMPTIONS = ["keys are such that joining them with a longer separator can be undone (a key ending in "
               "half of the separator cannot)", "an empty nested mapping counts as a leaf"]
N = {"quick": 1500, "thorough": 40000}
SEPS = [".", ".", ".", "/", "__", "::", "-", "->", " ", "\t", "é", "|", "a", "...", "*", "$", "\\", "."]


def models(tier, seed):
    return [{"module": "MC_Rollout", "parse": behaviours}]


def behaviours(out):
    r = []
    for line in re.findall(r'^"BEH (.*)"$', out, re.M):
        b = json.loads(line.replace('\\"', '"').replace("\\\\", "\\"))
        r.append({"m": b["m"], "flat": b["flat"], "sep": ".", "kind": "roundtrip"})
    # the identity direction, once per mapping
    seen = set()
    for c in list(r):
        k = json.dumps(c["m"])
        if k not in seen:
            seen.add(k)
            r.append({"m": c["m"], "flat": c["m"], "sep": ".", "kind": "identity"})
    return r


def key(rng, sep):
    while True:
        k = "".join(rng.choice("abxyz._-:/ é0") for _ in range(rng.choice([0, 1, 1, 2, 3])))
        if (k + sep).find(sep) == len(k):
            return k


def text(s):
    return [ord(c) for c in s]


def mapping(rng, sep, depth, ids, top=True, ident=False):
    items, used = [], set()
    for _ in range(rng.choice([1, 1, 2, 3, 4]) if not top else rng.choice([0, 1, 2, 3, 5])):
        k = key(rng, sep)
        if rng.random() < .4 and depth > 0:
            opt = ident and rng.random() < .2
            node = {"n": "map", "id": 0, "items": mapping(rng, sep, depth - 1, ids, False, ident)}
            # the whole join has to split where it was joined
            if any((k + sep + "".join(map(chr, e["key"]))).find(sep) != len(k) for e in node["items"]
                   if e["key"] != [-1]):
                continue
        else:
            opt = rng.random() < .35
            ids[0] += 1
            node = {"n": "leaf", "id": ids[0], "items": []}
        if (k, opt) in used:
            continue
        used.add((k, opt))
        items.append({"key": text(k), "opt": opt, "node": node})
    if not top and not items:
        ids[0] += 1
        items = [{"key": text("b" if "b" not in sep else "q"), "opt": False,
                  "node": {"n": "leaf", "id": ids[0], "items": []}}]
    if rng.random() < (.3 if top else .15 if ident else 0):
        items.insert(rng.randint(0, len(items)),
                     {"key": [-1], "opt": False, "node": {"n": "leaf", "id": 0, "items": []}})
    return items


def flatten(m, sep):
    out = []
    for e in m:
        if e["node"]["n"] == "leaf":
            out.append(e)
        else:
            out += [dict(f, key=e["key"] + text(sep) + f["key"]) for f in flatten(e["node"]["items"], sep)]
    return out


def cases(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        sep = rng.choice(SEPS)
        ident = rng.random() < .3
        m = mapping(rng, sep, rng.choice([1, 2, 3, 5]), [0], ident=ident)
        if ident:
            yield {"m": m, "flat": m, "sep": sep, "kind": "identity"}
        else:
            f = flatten(m, sep)
            if rng.random() < .6:
                rng.shuffle(f)
            yield {"m": m, "flat": f, "sep": sep, "kind": "roundtrip"}


def leaf(i):
    from d42 import optional, schema
    kinds = [lambda: schema.int(i), lambda: i * 1000 + 7, lambda: None, lambda: "a.b/c__d%d" % i,
             lambda: [{"x.y": i}], lambda: schema.dict({"a.b": schema.str}), lambda: {},
             lambda: ({"p.q": 1},), lambda: optional("a.b"), lambda: 1.5 * i, lambda: schema.any,
             lambda: object()]
    return kinds[i % len(kinds)]()


class Table:
    def __init__(self):
        self.objs = {}

    def get(self, i):
        if i not in self.objs:
            self.objs[i] = ... if i in (0, 9) else leaf(i)
        return self.objs[i]

    def find(self, x):
        for i, y in self.objs.items():
            if x is y:
                return i
        return -1


def dec(items, t):
    from d42 import optional
    out = {}
    for e in items:
        k = ... if e["key"] == [-1] else "".join(map(chr, e["key"]))
        k = optional(k) if e["opt"] else k
        assert k not in out
        out[k] = dec(e["node"]["items"], t) if e["node"]["n"] == "map" else t.get(e["node"]["id"])
    return out


def encode(d, t, empties):
    from d42 import optional
    out = []
    for k, v in d.items():
        opt = isinstance(k, optional)
        k = k.key if opt else k
        k = [-1] if k is ... else text(k) if type(k) is str else [-2]
        if type(v) is dict and v:
            node = {"n": "map", "id": 0, "items": encode(v, t, empties)}
        else:
            i = t.find(v)
            if i == -1 and v == {} and type(v) is dict:
                i = empties
            node = {"n": "leaf", "id": i, "items": []}
        out.append({"key": k, "opt": opt, "node": node})
    return out


def blank(items, t, empties):
    """Empty mappings among the leaves carry one id (a copy of {} is as good)."""
    out = []
    for e in items:
        n = e["node"]
        if n["n"] == "map":
            n = dict(n, items=blank(n["items"], t, empties))
        elif type(t.objs.get(n["id"])) is dict:
            n = dict(n, id=empties)
        elif n["id"] in t.objs:
            n = dict(n, id=t.find(t.objs[n["id"]]))
        out.append(dict(e, node=n))
    return out


def execute(case):
    from d42.utils import rollout
    t = Table()
    d = dec(case["flat"], t)
    kw = {} if case["sep"] == "." and len(d) % 2 else {"separator": case["sep"]}
    out, exc = core.call(rollout, d, **kw)
    e = -7
    ev = {"op": "rollout", "m": blank(case["m"], t, e), "flat": blank(case["flat"], t, e),
          "sep": text(case["sep"]), "kind": case["kind"], "exc": exc or "", "out": []}
    if exc is None:
        ev["out"] = blank(encode(out, t, e), t, e) if type(out) is dict else [
            {"key": [-3], "opt": False, "node": {"n": "leaf", "id": -1, "items": []}}]
    return [ev]


def nontrivial(case, evs):
    return [case["flat"], case["sep"], case["kind"]] if case["kind"] == "identity" or \
        len(case["flat"]) and case["flat"] != case["m"] else None


def show(items):
    return "{" + ", ".join("%s%r: %s" % ("?" if e["opt"] else "", ... if e["key"] == [-1] else "".join(
        chr(c) if c >= 0 else "<bad>" for c in e["key"]), show(e["node"]["items"]) if e["node"]["n"] == "map"
        else "#%d" % e["node"]["id"]) for e in items) + "}"


def describe(case, ev):
    return "rollout(%s, %r) -> %s %s expected %s" % (show(ev["flat"]), case["sep"], ev["exc"],
                                                     show(ev["out"]), show(ev["m"]))
