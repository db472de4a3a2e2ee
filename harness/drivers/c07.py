"""C07: sessions of interleaved operations over a shared pool of schemas and values."""
import json
import random
import re

from .. import build, core, enc, gen, models as models_, zoo
from ..calls import short
from ..common import show
from ..session import TYPES, Zygote, canary, clock, errors, observe, run, tell
from .c10 import METHODS, Chain, opaque

PROP, LEVEL = "C07", "model_checking"
RULE = ("sessions of 4-14 operations (refinement, declaration over schemas of the pool, |, +, %, ~, validate, "
        "==, repr, make_required, indexing, iteration, from_native, alias, failing calls, values that raise, "
        "later mutation of containers that were passed in, repetition of an earlier operation), either watched "
        "after every step or only at the end, and the sessions of the model MC_Session; every operation is "
        "also run alone in a process that has done nothing else; non-trivial when the session is distinct "
        "and some schema is made from another one")
ASSUMPTIONS = ["what can be seen of a schema: its props, printed form, verdicts and error texts on probe "
               "values, seeded generation, substitution of a probe, iteration, equality with an "
               "independent build"]
N = {"quick": 110, "thorough": 2500}
POOL = 9


def models(tier, seed):
    return [{"module": "MC_Session", "cfg": "MC_Session%s.cfg" % ("3" if tier == "thorough" else "")},
            {"module": "MC_Session", "cfg": "MC_SessionSim.cfg", "parse": behaviours,
             "simulate": ["-simulate", "num=%d" % (120 if tier == "quick" else 2500), "-depth", "17",
                          "-seed", str(seed)]},
            {"module": "MC_Combine", "parse": pairs(tier, seed)},
            {"module": "MC_Schemas", "cfg": "MC_Schemas.cfg", "parse": grid(tier, seed)}]


def pairs(tier, seed):
    """The pairs of schemas of MC_Combine, used in every way, twice."""
    def parse(out):
        rng, vs, r = random.Random("touch/%s" % seed), {}, []
        bs = models_.behs(out)
        for b in bs:
            if b["kind"] == "values":
                vs[b["of"]] = b["vs"]
        for b in bs:
            if b["kind"] in ("union", "sum") and len(b["parts"]) == 2 and (
                    b["kind"] == "sum" or tier != "quick" or rng.random() < .4):
                r.append(touching(b["parts"], rng.sample(vs[b["kind"]], 3), rng))
        return r
    return parse


def grid(tier, seed):
    """The schemas of MC_Schemas with their values."""
    def parse(out):
        rng = random.Random("touch1/%s" % seed)
        bs = sorted(models_.behs(out), key=lambda b: json.dumps(b["s"], sort_keys=True))
        return [touching([b["s"], rng.choice(bs)["s"]], rng.sample(b["vs"], min(len(b["vs"]), 5)), rng)
                for b in bs for _ in range(1 if tier == "quick" else 4) if tier != "quick" or rng.random() < .4]
    return parse


def touching(base, vs, rng):
    return {"touch": True, "model": False, "base": base, "vs": vs, "seed": rng.randrange(1 << 30), "watch": True,
            "steps": [], "want": []}


def behaviours(out):
    r = []
    for line in sorted(re.findall(r'^"BEH (.*)"$', out, re.M)):
        b = json.loads(line.replace('\\"', '"').replace("\\\\", "\\"))
        r.append({"model": True, "base": ["int", "list", "dict", "any"], "watch": len(r) % 3 > 0, "seed": len(r),
                  "steps": [dict(o, seed=i) for i, o in enumerate(b["ops"])], "want": b["pool"]})
    return r


OPS = (["call"] * 6 + ["or", "plus", "plus", "mod", "mod", "mod", "substitute", "validate", "validate",
       "validate_at", "vof", "eqv", "eq", "repr", "req", "req", "index", "get", "in", "iter", "keys", "items",
       "len", "native", "native", "fake", "fake", "invert", "alias", "list", "list", "dict", "dict", "any",
       "mutate", "mutate", "mutate", "mutate", "repeat", "repeat", "repeat", "twin", "again"])


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, custom=rng.random() < .3)
    for k in range(N[tier]):
        base = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            base.append(rng.choice(TYPES) if rng.random() < .35 else g.schema(rng.choice([0, 1, 1, 2])))
        if rng.random() < .2:
            base.append(gen.S("str", pattern=[gen.pattern(g.regex_tree(rng.choice([1, 2, 2])))]))
        if rng.random() < .12:
            bomb = dict(gen.S("custom"), name="Bomb", inner=g.schema(0))
            kids = [bomb, g.schema(0)]
            rng.shuffle(kids)
            base.append(rng.choice([
                bomb, dict(gen.S("list"), elems=[kids]), dict(gen.S("any"), types=[kids]),
                dict(gen.S("dict"), keys=[[[enc.enc(k), x, False] for k, x in zip("ab", kids)]])]))
        if rng.random() < .15:      # values that are equal, or print alike, in a row
            kin = rng.choice(KIN)
            o = rng.choice(["native", "native", "mod", "eqv"])
            yield {"model": False, "base": base[:1] + ["any"], "watch": True, "seed": rng.randrange(1 << 30), "want": [],
                   "steps": [{"o": o if rng.random() < .8 else "validate", "i": rng.randrange(2), "j": 0,
                              "seed": rng.randrange(1 << 30), "kin": enc.enc(v)}
                             for v in rng.sample(kin, len(kin)) + rng.sample(kin, 2)]}
        yield {"model": False, "base": base, "watch": rng.random() < .65, "seed": rng.randrange(1 << 30),
               "steps": [{"o": rng.choice(OPS), "i": rng.randrange(1000), "j": rng.randrange(1000),
                          "seed": rng.randrange(1 << 30)} for _ in range(rng.randint(4, 14))], "want": []}


KIN = [[1, True, 1.0], [0, False, 0.0, -0.0], [2, 2.0], ["1", b"1", 1], [[], {}, ""], [None, False, 0],
       [[1], [True], [1.0]], [{"a": 1}, {"a": True}, {"a": 1.0}], [[0], [False], [-0.0]]]


class World:
    def __init__(self, case, zygote):
        self.case, self.z = case, zygote
        self.pool, self.kept, self.results, self.log = [], [], [], []
        self.ids = {}
        self.births, self.alone, self.steps = [], [], []

    def id(self, text):
        return self.ids.setdefault(text, len(self.ids) + 1)

    # ------------------------------------------------------------ the pool
    def add(self, s, step):
        if not self.case["model"] and (len(self.pool) >= POOL or any(s is e["s"] for e in self.pool)):
            return
        p = enc.proj(s)
        e = {"s": s, "p": p, "seed": len(self.pool) + 1, "probes": self.probes(p, step), "twin": None}
        try:
            e["twin"] = None if nan_key(p) else build.build(p, None)
        except Exception:
            pass
        self.pool.append(e)
        fresh = None if self.case["model"] or p["t"] == "broken" or not exact(s) else self.z.ask(
            {"o": "observe", "s": p, "probes": e["probes"], "seed": e["seed"]})
        self.alone.append([] if fresh is None else list(map(self.id, fresh)))
        self.births.append(self.look(e, twin=False) if self.case["watch"] or fresh is None else self.alone[-1])

    def probes(self, p, step):
        r = random.Random(step["seed"])
        g, out = gen.Gen(r), []
        for _ in range(2):
            try:
                v = g.conf(p)
                out += [v, g.perturb(v, hostile=r.random() < .2)]
            except (gen.GiveUp, TypeError, OverflowError, KeyError, AttributeError):
                out.append(g.value(1))
        try:
            return [enc.enc(v) for v in out[:4]] + [enc.enc(r.choice(r.choice(KIN)))]
        except RecursionError:
            return []

    def look(self, e, twin=True):
        return list(map(self.id, observe(e["s"], e["p"], e["probes"], e["seed"])))

    def equal_to_twin(self):
        out = []
        for e in self.pool:
            if e["twin"] is not None and enc.proj(e["twin"]) == e["p"]:
                eq, exc = core.call(lambda: [e["s"] == e["twin"], e["twin"] == e["s"]])
                out.append([self.id("[true, true]"), self.id(exc or json.dumps(eq))])
        return out

    # ---------------------------------------------------------- operands
    def pick(self, n):
        return self.pool[n % len(self.pool)]

    def ref(self, e):
        return {"a": "schema", "s": enc.proj(e["s"])}, e["s"]

    def keep(self, desc, obj):
        """Remember a container that is passed in."""
        self.kept.append({"d": desc, "o": obj})
        return desc, obj

    def value(self, v):
        d = {"a": "val", "v": enc.enc(v)}
        o = enc.dec(d["v"])
        if isinstance(o, (list, dict)) and not opaque(d):
            self.keep(d, o)
        return d, o

    def old_value(self, r):
        ks = [k for k in self.kept if k["d"]["a"] == "val"]
        k = r.choice(ks)
        return k["d"], k["o"]

    def fit(self, e, r):
        """A value for e: conforming, near it, a kin of it, or anything."""
        g = gen.Gen(r, otherzoo=zoo.ALL)
        c = r.random()
        try:
            if c < .45:
                v = g.conf(enc.proj(e["s"]))
                if type(v) is dict and r.random() < .4 and v:
                    v.pop(r.choice(list(v)))
                return v
            if c < .6:
                return g.perturb(g.conf(enc.proj(e["s"])), hostile=r.random() < .3)
        except (gen.GiveUp, TypeError, OverflowError, KeyError, RecursionError):
            pass
        if c < .85:
            return r.choice(r.choice(KIN))
        if c < .95:
            return g.value(2, plain=True)
        v = g.hostile()
        try:
            enc.enc(v)
        except RecursionError:
            return None
        return v

    def container(self, o, r, e):
        """A list or dict of schemas of the pool, for a declaration."""
        ks = [k for k in self.kept if k["d"]["a"] == o]
        if ks and r.random() < .35:
            k = r.choice(ks)
            return k["d"], k["o"]
        es = [self.pick(r.randrange(1000)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if es:
            es[0] = e
        if o == "list":
            xs = [self.ref(x) for x in es]
            c = r.random()
            dots = ({"a": "ell"}, ...)
            if c < .2:
                xs.append(dots)
            elif c < .35:
                xs.insert(0, dots)
            elif c < .45 and xs:
                xs = [dots] + xs + [dots]
            elif c < .5:
                xs.insert(r.randint(0, len(xs)), ({"a": "nil"}, real_nil()))
            return self.keep({"a": "list", "xs": [a for a, _ in xs]}, [b for _, b in xs])
        from d42 import optional
        ps, d = [], {}
        for x in es:
            k, opt = r.choice(["a", "b", "c", "d", 1, "a.b"]), r.random() < .4
            real_k = optional(k) if opt else k
            if any(p[0]["v"] == enc.enc(k) for p in ps):
                continue
            a, b = self.ref(x)
            ps.append([{"opt": opt, "v": enc.enc(k)}, a])
            d[real_k] = b
        if r.random() < .3:
            ps.append([{"opt": False, "v": {"k": "ell"}}, {"a": "ell"}])
            d[...] = ...
        return self.keep({"a": "dict", "ps": ps}, d)

    def desc_now(self, desc, obj):
        """The present contents of a kept container."""
        if desc["a"] == "val":
            return {"a": "val", "v": enc.enc(obj)}
        return desc

    def resolve(self, step):
        """(operation, [(description, object)], extra)"""
        o, e, r = step["o"], self.pick(step["i"]), random.Random(step["seed"])
        f = self.pick(step["j"])
        me = self.ref(e)
        if self.case["model"]:
            e = self.pool[step["i"] - 1]
            f = self.pool[step["j"] - 1]
            me = self.ref(e)
            if o == "call":
                return o, [me] + [self.explicit(a) for a in step["args"]], step["m"]
            if o in ("mod", "validate"):
                return o, [me, self.value(enc.dec(step["v"]))], None
            if o in ("or", "plus"):
                return o, [me, self.ref(f)], None
            if o == "fake":
                return o, [me], None if clock(enc.proj(e["s"])) else 5
            return o, [me], None
        if "kin" in step:
            return o, ([] if o == "native" else [me]) + [self.value(enc.dec(step["kin"]))], None
        if o in ("mod", "substitute", "validate", "validate_at", "vof", "eqv", "in"):
            if any(k["d"]["a"] == "val" for k in self.kept) and r.random() < .25:
                return o, [me, self.old_value(r)], None
            return o, [me, self.value(self.fit(e, r))], None
        if o in ("or", "plus", "eq", "any"):
            for x in self.pool[step["j"] % len(self.pool):]:
                if o == "plus" and x["p"]["t"] == "dict":
                    f = x
            if o == "plus" and e["p"]["t"] != "dict":
                e = next((x for x in self.pool if x["p"]["t"] == "dict"), e)
            return o, [self.ref(e), self.ref(f)], None
        if o in ("list", "dict"):
            return o, [self.container(o, r, e)], None
        if o == "alias":
            return o, [me], r.choice(["A", "B"])
        if o in ("fake", "invert"):
            return o, [me], None if clock(enc.proj(e["s"])) else r.randrange(3)
        if o == "native":
            if any(k["d"]["a"] == "val" for k in self.kept) and r.random() < .25:
                return o, [self.old_value(r)], None
            g = gen.Gen(r)
            return o, [self.value(r.choice(r.choice(KIN)) if r.random() < .5 else g.value(2, plain=True))], None
        if o in ("req", "index", "get"):
            if e["p"]["t"] not in ("dict", "list") and r.random() < .8:
                e = next((x for x in self.pool if x["p"]["t"] == "dict"), e)
            p = enc.proj(e["s"])
            ks = [enc.dec(k) for k, _, _ in (p["keys"][0] if p["t"] == "dict" and p["keys"] else [])]
            if o == "req":
                if r.random() < .3:
                    return o, [self.ref(e)], None
                ks = [k for k in ks if k is not ... and r.random() < .6] + (["nokey"] if r.random() < .1 else [])
                return o, [self.ref(e), self.value(ks)], None
            return o, [self.ref(e), self.value(r.choice(ks + ["nokey"]) if ks else r.choice([0, "a"]))], None
        if o == "call":
            t = e["p"]["t"]
            if not METHODS.get(t):
                return "repr", [me], None
            m = r.choice(METHODS[t])
            if m == "" and t in ("list", "dict"):
                return o, [me, self.container(t, r, f)], m
            if m == "" and t == "any" or t == "list" and m == "" and r.random() < .3:
                return o, [me, self.ref(f), self.ref(e)][:r.choice([2, 3]) if t == "any" else 2], m
            c = Chain(r, big=False)
            p = enc.proj(e["s"])
            if p.get("value"):
                c.value = enc.dec(p["value"][0])
                c.nums = [c.value]
            if p.get("elems"):
                c.value = p["elems"][0]
            for b in ("min", "max"):
                c.nums += [enc.dec(x) for x in p.get(b, [])]
            return o, [me] + [self.explicit(a) for a in c.args(t, m)], m
        return o, [me], None

    def explicit(self, a):
        from ..calls import real
        if a["a"] == "ref":
            return self.ref(self.pool[a["i"] - 1])
        if a["a"] == "list":
            xs = [self.explicit(x) for x in a["xs"]]
            return self.keep({"a": "list", "xs": [x for x, _ in xs]}, [x for _, x in xs])
        if a["a"] == "dict":
            from d42 import optional
            ps, d = [], {}
            for p, x in a["ps"]:
                q, y = self.explicit(x)
                k = ... if p["v"]["k"] == "ell" else enc.dec(p["v"])
                ps.append([p, q])
                d[optional(k) if p["opt"] else k] = y
            return self.keep({"a": "dict", "ps": ps}, d)
        if a["a"] == "val":
            if "re" in a:
                return a, enc.dec(a["v"])
            return self.value(enc.dec(a["v"]))
        return a, real(a)

    # ------------------------------------------------------------- steps
    def snapshot(self, desc, obj):
        """What a value passed in looks like."""
        if desc["a"] == "val":
            return json.dumps(enc.enc(obj))
        if desc["a"] == "schema":
            return tell(obj)
        if desc["a"] == "list":
            return json.dumps([id(x) for x in obj])
        if desc["a"] == "dict":
            return repr([(repr(k), id(x)) for k, x in obj.items()])
        return ""

    def mutate(self, r):
        """Change, in place, a container that was passed in."""
        ks = [k for k in self.kept if k["d"]["a"] in ("list", "dict") or isinstance(k["o"], (list, dict))]
        if not ks:
            return
        k = r.choice(ks[-4:])
        o = k["o"]
        if k["d"]["a"] == "val":
            inner = [x for x in (o.values() if isinstance(o, dict) else o) if isinstance(x, (list, dict))]
            if inner and r.random() < .5:
                o = r.choice(inner)
            new = r.choice([5, "z", None, [9], {"q": 1}])
        else:
            new = r.choice([self.pick(r.randrange(1000))["s"], ...])
        if isinstance(o, list):
            c = r.randrange(5)
            if c == 0:
                o.append(new)
            elif c == 1:
                o.clear()
            elif c == 2 and o:
                o[r.randrange(len(o))] = new
            elif c == 3:
                o.reverse()
                o.append(new)
            elif o:
                o.pop(r.randrange(len(o)))
        else:
            c = r.randrange(4)
            if c == 0 or not o:
                o["zz"] = new
            elif c == 1:
                o.clear()
            elif c == 2:
                o[r.choice(list(o))] = new
            else:
                o.pop(r.choice(list(o)))
        if k["d"]["a"] != "val":
            self.kept.remove(k)            # from now on its description is out of date
        else:
            k["d"] = {"a": "val", "v": enc.enc(k["o"])}

    def step(self, step):
        r = random.Random(step["seed"])
        o = step["o"]
        rec = {"key": 0, "res": 0, "alone": 0, "obs": [], "args": [], "kept": [], "old": [], "o": o}
        if o == "mutate":
            self.mutate(r)
            # a result refers to the values it complains about
            self.results = [(x, errors(x)) for x, _ in self.results]
            self.steps.append(self.watch(rec))
            return
        if o in ("repeat", "twin", "again") and self.log:
            req, objs = self.log[r.randrange(len(self.log))]
            if o == "twin":                      # on equal, but other, objects
                from ..calls import real
                try:
                    objs = [real(a) for a in req["A"]]
                except Exception:
                    pass
            elif o == "again":                   # several times
                for _ in range(3):
                    run(req["o"], objs, req["x"])
            if any(self.snapshot(a, b) != c for a, b, c in zip(req["A"], objs, req["was"])):
                from ..calls import real         # changed since: rebuild the operands
                try:
                    objs = [real(a) for a in req["A"]]
                except Exception:
                    return
            req = {k: req[k] for k in ("o", "A", "x")}
        elif o in ("repeat", "twin", "again"):
            return
        else:
            o, ops, x = self.resolve(step)
            req, objs = {"o": o, "A": [self.desc_now(a, b) for a, b in ops], "x": x}, [b for _, b in ops]
        rec["o"] = o = req["o"]
        before = [self.snapshot(a, b) for a, b in zip(req["A"], objs)]
        kept = [(k, self.snapshot(k["d"], k["o"])) for k in self.kept]
        text, res = run(o, objs, req["x"])
        after = [self.snapshot(a, b) for a, b in zip(req["A"], objs)]
        rec["args"] = [[self.id(a), self.id(b)] for a, b in zip(before, after)]
        rec["kept"] = [[self.id(a), self.id(self.snapshot(k["d"], k["o"]))] for k, a in kept]
        unseeded = o in ("fake", "invert") and req["x"] is None or deep(req["A"])
        if not unseeded and text != "raised HarnessTimeout":
            rec["key"] = self.id("key" + json.dumps(req, sort_keys=True))
            rec["res"] = self.id(text)
            if not self.case["model"] or step["seed"] == 0:
                t = self.z.ask(req)
                rec["alone"] = 0 if t is None or not all(a["a"] == "val" or exact(b) for a, b in zip(req["A"], objs)) or "HarnessTimeout" in t else self.id(t)
        else:
            rec["key"] = self.id("key%d" % len(self.steps))
        from d42.declaration import Schema
        from d42.validation import ValidationResult
        new = [res] if not isinstance(res, tuple) else [] if self.case["model"] else list(res[1])
        for x in new:
            if isinstance(x, Schema):
                self.add(x, step)
            elif isinstance(x, ValidationResult) and len(self.results) < 6:
                self.results.append((x, errors(x)))
        self.log.append((dict(req, was=before), objs))
        self.steps.append(self.watch(rec))

    def watch(self, rec, end=False):
        if self.case["watch"] or end:
            rec["obs"] = [self.look(e) for e in self.pool]
            rec["old"] = [[self.id(t), self.id(errors(x))] for x, t in self.results] + self.equal_to_twin()
        return rec


def deep(x):
    """Nested so deeply that the depth of the stack decides."""
    t, n = json.dumps(x), 0
    for c in re.sub(r'"[^"]*"', "", t):
        n += (c in "[{") - (c in "]}")
        if n > 300:
            return True
    return False


def nan_key(p):
    """Is there a nan among the keys?  Two nans are two keys, so a schema built anew is another one."""
    if isinstance(p, dict):
        return any(nan_key(v) or (n == "keys" and isinstance(v, list) and any(
            k[0].get("c") == "nan" for k in held(v))) for n, v in p.items())
    return isinstance(p, list) and any(map(nan_key, p))


def held(keys):
    return [k for ks in keys if isinstance(ks, list) for k in ks
            if isinstance(k, list) and k and isinstance(k[0], dict)]


def exact(s):
    """Does the projection say everything about s?  (It has no len(True), for example.)"""
    from d42.declaration import Schema
    if isinstance(s, (list, tuple)):
        return all(map(exact, s))
    if isinstance(s, dict):
        return all(map(exact, s.values()))
    if not isinstance(s, Schema):
        return True
    for k in s.props:
        v = s.props.get(k)
        if k in ("len", "min_len", "max_len", "precision") and v is not real_nil() and \
                (type(v) is not int or abs(v) >= enc.LIM):
            return False
        if not exact(v):
            return False
    return True


def real_nil():
    from niltype import Nil
    return Nil


def touch(case):
    """Every operation on a pair of schemas, twice over; everything is watched."""
    from d42 import optional
    r = random.Random(case["seed"])
    s, t = [build.build(b, r) for b in case["base"]]
    ps = [enc.proj(s), enc.proj(t)]
    vs = [enc.dec(v) for v in case["vs"]]
    ids = {}

    def num(x):
        return ids.setdefault(x, len(ids) + 1)

    def look():
        return [[num(tell(x))] + [num(errors(run("validate", [x, v], None)[1])) for v in vs[:2]]
                for x in (s, t)]
    births, steps, kept, results = look(), [], [], []
    for v in vs:
        kept.append([json.dumps(enc.enc(v)), lambda v=v: json.dumps(enc.enc(v))])

    def hold(x):
        kept.append([repr(x), lambda: repr(x)])
        return x
    both = hold([s, t])
    more = [hold([...] + both), hold(both + [...]), hold([...] + both + [...])]
    named = hold({"a": s, optional("b"): t, ...: ...})
    plan = [("repr", [s], None), ("eq", [s, t], None), ("or", [s, t], None), ("any", [s, t], None),
            ("alias", [s], "A"), ("list", [both], None), ("list", [r.choice(more)], None), ("dict", [named], None)]
    plan += [(o, [s, v], None) for v in vs for o in ("mod", "validate", "eqv", r.choice(["vof", "validate_at"]))]
    plan += [("native", [v], None) for v in vs]
    plan += [("fake", [x], 3) for x, p in ((s, ps[0]), (t, ps[1])) if not clock(p)]
    if ps[0]["t"] == ps[1]["t"] == "dict":
        plan += [("plus", [s, t], None), ("plus", [t, s], None), ("plus", [s, s], None)]
    if ps[0]["t"] == "dict":
        ks = [enc.dec(k) for k, _, _ in (ps[0]["keys"][0] if ps[0]["keys"] else []) if k["k"] != "ell"]
        plan += [("req", [s], None), ("req", [s, hold(ks[:])], None), ("req", [s, hold(ks[:1])], None),
                 ("req", [s, hold(set(ks))], None), ("req", [s, tuple(ks)], None), ("iter", [s], None),
                 ("keys", [s], None), ("items", [s], None), ("len", [s], None)]
        plan += [(o, [s, k], None) for k in ks[:2] + ["nokey"] for o in ("index", "get", "in")]
    if ps[0]["t"] == "any":
        plan.append(("iter", [s], None))
    for m in METHODS.get(ps[0]["t"], []):
        if m or ps[0]["t"] not in ("list", "dict", "any"):
            from ..calls import real
            plan.append(("call", [s] + [real(a) for a in Chain(r, big=False).args(ps[0]["t"], m)], m))
        else:
            plan.append(("call", [s, named if ps[0]["t"] == "dict" else r.choice([both, t, s])], m))
    r.shuffle(plan)
    order = list(range(len(plan)))
    for k in order + r.sample(order, len(order)):
        o, objs, x = plan[k]
        text, res = run(o, objs, x)
        if text == "raised HarnessTimeout":
            continue
        results.append([text if res is not None and o != "fake" else "", res])
        steps.append({"o": o, "key": k + 1, "res": num(text), "alone": 0, "obs": look(), "args": [], "kept": [],
                      "old": []})
    end = {"o": "end", "key": 10 ** 6, "res": 0, "alone": 0, "obs": look(), "args": [],
           "kept": [[num(a), num(f())] for a, f in kept], "old": [[num(a), num(tell(b))] for a, b in results if a]}
    Z["touch"] = {v: k for k, v in ids.items()}
    Z["plan"] = plan
    return [{"op": "session", "births": births, "alone": [[] for _ in births], "steps": steps + [end],
             "model": False, "want": [], "got": []}]


def short_(xs):
    return ", ".join(core.call(repr, x)[0][:80] if core.call(repr, x)[1] is None else "?" for x in xs)


def touched(case, ev):
    ev = touch(case)[0]
    names, out, first = Z["touch"], [], {}
    n = lambda i: names.get(i, "?")[:250]
    for k, s in enumerate(ev["steps"]):
        o, xs, x = Z["plan"][s["key"] - 1] if s["o"] != "end" else ("end", [], "")
        what = "%s(%s; %s)" % (o, short_(xs), x)
        for i, o in enumerate(s["obs"]):
            out += ["after %s schema #%d: %s -> %s" % (what, i, n(a), n(b)) for a, b in zip(ev["births"][i], o) if a != b]
        for f in ("kept", "old"):
            out += ["%s: %s -> %s" % (f, n(a), n(b)) for a, b in s[f] if a != b]
        if first.setdefault(s["key"], s["res"]) != s["res"]:
            out.append("%s: %s, then %s" % (what, n(first[s["key"]]), n(s["res"])))
    return "%s, %s: %s" % (show(case["base"][0]), show(case["base"][1]), " | ".join(out[:3]))


Z = {}


def execute(case):
    import os
    if case.get("touch"):
        return touch(case)
    if Z.get("pid") != os.getpid():
        Z.update(pid=os.getpid(), z=Zygote())
    from d42 import schema
    w = World(case, Z["z"])
    for k, b in enumerate(case["base"]):
        try:
            s = getattr(schema, b) if isinstance(b, str) else build.build(b, random.Random(k))
        except Exception:
            continue
        w.add(s, {"seed": case["seed"] + k})
    if not w.pool:
        return []
    for st in case["steps"]:
        w.step(st)
    if "canary" not in Z:
        Z["canary"] = Z["z"].ask({"o": "canary"})
    sings = [[w.id(a), w.id(b)] for a, b in zip(Z["canary"], canary()) if a != b] if case["seed"] % 2 == 0 else []
    w.steps.append(w.watch({"key": 0, "res": 0, "alone": 0, "obs": [], "args": [], "kept": [], "old": [],
                            "o": "end"}, end=True))
    w.steps[-1]["old"] += sings
    for i, s in enumerate(w.steps):
        s["key"] = s["key"] or -i - 1
    ev = {"op": "session", "births": w.births, "alone": w.alone, "steps": w.steps, "model": case["model"],
          "want": case["want"], "got": [e["p"] for e in w.pool] if case["model"] else []}
    Z["last"] = (case, {v: k for k, v in w.ids.items()}, w)
    return [ev]


def nontrivial(case, evs):
    if case.get("touch"):
        return [case["base"], case["vs"]]
    return [case["base"], case["steps"]] if len(evs[0]["births"]) > len(case["base"]) else None


def describe(case, ev):
    if case.get("touch"):
        return touched(case, ev)
    evs = execute(case)
    _, names, w = Z["last"]
    ev, out = evs[0], []
    n = lambda i: names.get(i, "?")[:250]
    hist = ["%s(%s)" % (r["o"], ", ".join(map(short, r["A"]))[:200]) for r, _ in w.log]
    for k, s in enumerate(ev["steps"]):
        for i, o in enumerate(s["obs"]):
            for a, b in zip(ev["births"][i], o):
                if a != b:
                    out.append("after step %d (%s) schema #%d: %s -> %s" % (k, s["o"], i, n(a), n(b)))
        for f in ("args", "kept", "old"):
            for a, b in s[f]:
                if a != b:
                    out.append("step %d (%s) %s: %s -> %s" % (k, s["o"], f, n(a), n(b)))
        if s["alone"] and s["alone"] != s["res"]:
            out.append("step %d (%s) alone: %s, here: %s" % (k, s["o"], n(s["alone"]), n(s["res"])))
    for i, (a, b) in enumerate(zip(ev["alone"], ev["births"])):
        if a and a != b:
            out.append("schema #%d alone: %s, here: %s" % (i, [n(x) for x in a if x not in b],
                                                         [n(x) for x in b if x not in a]))
    if ev["model"] and ev["want"] != ev["got"]:
        out.append("want %s got %s" % (list(map(show, ev["want"])), list(map(show, ev["got"]))))
    return " | ".join(out[:4]) + " || " + " ; ".join(hist)[:1500]
