"""C10: chains of declaration calls with arguments of any type."""
import math
import random

from .. import core, enc, gen, models as models_, zoo
from ..calls import call_text, method, real, val
from ..common import show

PROP, LEVEL = "C10", "model_checking"
RULE = ("every chain of MC_Declare (3 calls), and random ones: "
        "chains of up to 4 calls over every refinement method of every type; arguments valid, on or "
        "beside a boundary of what is already declared, contradicting it, of a wrong type (every "
        "hostile value of the zoo, Ellipsis, Nil, bools as ints, negative and huge lengths, nan and "
        "infinities); one event per call; non-trivial when the (receiver, method, arguments) triple "
        "is distinct")
ASSUMPTIONS = ["calls with a wrong number of arguments are not declarations"]
N = {"quick": 3500, "thorough": 60000}

METHODS = {"none": [], "bool": [""], "int": ["", "min", "max"], "float": ["", "min", "max", "precision"],
           "str": ["", "len", "alphabet", "contains", "regex"], "bytes": [""], "list": ["", "len"],
           "dict": [""], "any": [""], "uuid4": [""], "datetime": [""], "date": [""]}
BADRE = ["(", "[", "a{2,1}", "*", "(?P<n>a)(?P<n>b)", "\\", "(?<=a*)b", "a{99999999999}", "(?z)", "[z-a]",
         "(?P=x)", "\\8", "a**", "(" * 300 + ")" * 300]


class Chain:
    def __init__(self, rng, big=True):
        self.r = rng
        self.big = big
        self.g = gen.Gen(rng, otherzoo=zoo.ALL)
        self.value = None
        self.nums = []

    def near(self, f):
        """A number on or beside one used before."""
        if self.nums and self.r.random() < .7:
            x = self.r.choice(self.nums)
            try:
                if isinstance(x, float):
                    return self.r.choice([x, x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf),
                                          x + 1.0, x - 1.0, -x, x * (1 + 5e-10)])
                return self.r.choice([x, x, x + 1, x - 1, -x, bool(x) if x in (0, 1) else x])
            except (OverflowError, ValueError):
                return x
        return f()

    def length(self):
        n = len(self.value) if isinstance(self.value, (str, list)) else 2
        return self.r.choice([n, n, n, n + 1, n - 1, 0, 1, -1, -5, True, False, n + 2] + [2**31, 10**30] * self.big)

    def bad(self):
        return self.r.choice([val(self.g.hostile()), val(self.g.hostile()), {"a": "ell"}, {"a": "nil"},
                              val(self.g.value(1)), {"a": "schema", "s": gen.S("int")}])

    def args(self, t, m):
        r, g = self.r, self.g
        if r.random() < .12:
            n = 2 if m == "len" and r.random() < .5 else 1
            return [self.bad() for _ in range(n)]
        if t in ("int", "float"):
            if m == "precision":
                return [val(r.choice([0, 1, 2, 3, 10, 14, 15, 16, -1, True, 2**40]))]
            x = self.near(g.int_ if t == "int" else g.float_)
            if t == "float" and isinstance(x, int):
                x = float(x) if abs(x) < 2**60 else 1.0
            self.nums.append(x)
            return [val(x)]
        if m == "len":
            f = r.randrange(5)
            a, b = val(self.length()), val(self.length())
            return [[a], [a, {"a": "ell"}], [{"a": "ell"}, b], [a, b], [a, r.choice(
                [{"a": "nil"}, b])]][f]
        if t == "str":
            v = self.value if isinstance(self.value, str) else None
            if m == "":
                self.value = g.str_()
                return [val(self.value)]
            if m == "alphabet":
                if v is not None and r.random() < .8:
                    al = "".join(dict.fromkeys(v))
                    return [val(r.choice([al, al + "q", al[1:], al[:-1], al[::-1], ""]))]
                return [val(r.choice(gen.ALPHABETS + ["", "a"]))]
            if m == "contains":
                if v is not None and r.random() < .8:
                    i = r.randint(0, len(v))
                    j = r.randint(i, len(v))
                    return [val(r.choice([v[i:j], v[i:j] + "q", v, v + "a", "", v[::-1]]))]
                return [val(g.str_())]
            if r.random() < .2:
                p = r.choice(BADRE)
                return [dict(val(p), re=[])]
            x = g.regex_tree(2, validate=True)
            p = gen.pattern(x)
            if v is not None and r.random() < .6:
                x = {"r": "seq", "xs": [{"r": "lit", "c": ord(c)} for c in v[:r.randint(0, len(v))]]}
                if r.random() < .3:
                    x["xs"].append({"r": "at", "a": "Z"})
                p = gen.pattern(x)
            return [dict(val(p["p"]), re=[p])]
        if t == "list":
            if r.random() < .3:
                return [{"a": "schema", "s": g.schema(1)}]
            es = [{"a": "schema", "s": g.schema(1)} for _ in range(r.choice([0, 1, 2, 2, 3]))]
            if r.random() < .5:
                fixed = gen.Gen(r, alias=False)
                es = []
                for _ in range(r.choice([0, 1, 2, 3])):
                    s = fixed.schema(0)
                    es.append({"a": "schema", "s": s})
            self.value = list(es)
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                es.insert(r.choice([0, len(es), r.randint(0, len(es))]), {"a": "ell"})
            if r.random() < .1:
                es.insert(r.randint(0, len(es)), self.bad())
            return [{"a": "list", "xs": es}]
        if t == "dict":
            ps, seen = [], []
            for _ in range(r.choice([0, 1, 2, 3])):
                k = g.key_()
                opt = r.random() < .4
                if any(k == q and opt == o for q, o in seen):
                    continue
                seen.append((k, opt))
                c = r.random()
                x = {"a": "schema", "s": g.schema(1)} if c < .85 else self.bad()
                ps.append([{"opt": opt, "v": enc.enc(k)}, x])
            if r.random() < .35:
                ps.insert(r.randint(0, len(ps)), [{"opt": False, "v": {"k": "ell"}}, {"a": "ell"}
                                                  if r.random() < .7 else self.bad()])
            return [{"a": "dict", "ps": ps}]
        if t == "any":
            out = [{"a": "schema", "s": g.schema(1)} for _ in range(r.choice([1, 2, 3]))]
            if r.random() < .15:
                out.insert(r.randint(0, len(out)), self.bad())
            return out
        f = {"bool": lambda: r.random() < .5, "bytes": g.bytes_, "uuid4": lambda: g.uuid_(True),
             "datetime": g.datetime_, "date": lambda: r.choice([g.date_, g.datetime_])()}[t]
        return [val(f())]


def models(tier, seed):
    return models_.declare(lambda b, r: dict(b, seed=0), tier, seed)


def cases(rng, tier, shard, nshards):
    ts = [t for t, ms in METHODS.items() if ms]
    weight = ["str"] * 5 + ["float"] * 3 + ["int"] * 2 + ["list"] * 4 + ["dict"] + ts
    for _ in range(N[tier]):
        try:
            if rng.random() < .03:
                c = Chain(rng)
                yield {"base": "alias", "seed": rng.randrange(1 << 30), "calls": [["alias", [
                    val(rng.choice(["A", "", 5, None, b"x"])), rng.choice(
                        [{"a": "schema", "s": c.g.schema(1)}, c.bad()])]]]}
                continue
            t = rng.choice(weight)
            c = Chain(rng)
            ms = METHODS[t]
            n = rng.choice([1, 2, 2, 3, 3, 4])
            calls = []
            if rng.random() < .5:
                calls.append(["", c.args(t, "")])
            while len(calls) < n:
                m = rng.choice(ms)
                calls.append([m, c.args(t, m)])
            yield {"base": t, "calls": calls, "seed": rng.randrange(1 << 30)}
        except RecursionError:
            continue


def own_value(s):
    """The value a schema is fixed to, and whether there is one."""
    from d42.declaration import types as T
    from niltype import Nil
    if isinstance(s, T.NoneSchema):
        return True, None
    if isinstance(s, T.ListSchema):
        if s.props.elements is Nil:
            return False, None
        out = []
        for e in s.props.elements:
            if e is ...:
                return False, None
            ok, v = own_value(e)
            if not ok:
                return False, None
            out.append(v)
        return True, out
    v = s.props.get("value")
    return v is not Nil, v


def execute(case):
    from d42 import schema, validate
    from d42.declaration import DeclarationError, Schema
    out = []
    if case["base"] == "alias":
        m, args = case["calls"][0]
        try:
            ra = [real(a, case["seed"]) for a in args]
        except Exception:
            return []
        r, exc = core.call(schema.alias, *ra)
        return [{"op": "call", "s": {"t": "none"}, "m": "alias", "args": [], "outcome": outcome(exc),
                 "same": True, "r": {"t": "none"}, "conf": "n/a", "judge": False}]
    s = getattr(schema, case["base"])
    for m, args in case["calls"]:
        try:
            ra = [real(a, case["seed"]) for a in args]
        except Exception:
            return out
        a = enc.proj(s)
        before = repr(s)
        r, exc = core.call(method(s, m), *ra)
        ev = {"op": "call", "s": a, "m": m, "args": args, "outcome": outcome(exc),
              "same": enc.proj(s) == a and repr(s) == before, "r": {"t": "none"}, "conf": "n/a",
              "judge": not (opaque(a) or opaque(args) or m == "regex" and "re" not in args[0])}
        if exc is None:
            ev["r"] = enc.proj(r) if isinstance(r, Schema) else {"t": "broken"}
            if isinstance(r, Schema):
                has, v = own_value(r)
                if has:
                    res, e2 = core.call(validate, r, v)
                    ev["conf"] = "no" if e2 or res.has_errors() else "yes"
                s = r
        out.append(ev)
    return out


def outcome(exc):
    return "ok" if exc is None else exc


def opaque(x):
    """Does an encoding hold a value the specification only knows as an opaque object?"""
    if isinstance(x, dict):
        return x.get("k") == "other" or x.get("c") == -1 or x.get("re") == [] or any(map(opaque, x.values()))
    return isinstance(x, list) and any(map(opaque, x))


def nontrivial(case, evs):
    return [case["base"], case["calls"]]


def describe(case, ev):
    return "%s %s -> %s %s same=%s conf=%s" % (
        show(ev["s"]), call_text(ev["m"], ev["args"]), ev["outcome"], show(ev["r"]) if ev["outcome"] == "ok"
        else "", ev["same"], ev["conf"])
