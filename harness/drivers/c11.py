"""C11: the same refinements, in every order."""
import itertools
import math

from .. import core, enc, gen
from ..calls import call_text, method, real, val
from ..common import show

PROP, LEVEL = "C11", "model_checking"
RULE = ("sets of up to 3 (quick) or 4 (thorough) refinements from a universe of boundary arguments, "
        "with and without a value fixed first, applied in every order: all pairs always, larger sets "
        "sampled (quick) or all of them (thorough), plus random larger arguments; one event per set "
        "holding the outcome and the schema of each order; non-trivial when the set is distinct and "
        "has at least two refinements")
ASSUMPTIONS = ["all arguments are of the declared types or bool for int"]
RANDOM = {"quick": 700, "thorough": 12000}
TRIPLES = {"quick": .1, "thorough": 1}
QUADS = {"quick": 0, "thorough": .15}
ELL = {"a": "ell"}


def rx(p, x):
    q = gen.pattern(x)
    assert q["p"] == p, (q["p"], p)
    return dict(val(p), re=[q])


def lit(c):
    return {"r": "lit", "c": ord(c)}


def lens(ns):
    out = [["len", [val(n)]] for n in ns]
    out += [["len", [val(n), ELL]] for n in ns]
    out += [["len", [ELL, val(n)]] for n in ns]
    out += [["len", [val(a), val(b)]] for a in ns for b in ns if a != b]
    out += [["len", [val(2), val(2)]]]
    return out


def universe(t):
    """[(values fixed first, refinements)]"""
    if t == "int":
        ns = [-1, 0, 1, 2, True, 2**70, -2**70]
        return ([None, 0, 1, True, -1, 2**70],
                [[m, [val(n)]] for m in ("min", "max") for n in ns])
    if t == "float":
        ns = [0.0, -0.0, 1.0, 1.5, 1 + 1e-10, 1e308, math.inf, -math.inf, math.nan, 0.25]
        return ([None, 0.0, 1.0, 1.04, -0.0, math.inf, math.nan, 0.3],
                [[m, [val(n)]] for m in ("min", "max") for n in ns] +
                [["precision", [val(n)]] for n in (1, 2, 15, 0, 16, True)])
    if t == "str":
        ab = {"r": "seq", "xs": [lit("a"), lit("b")]}
        return ([None, "", "a", "ab", "abc", "é日😀"],
                lens([-1, 0, 1, 2, 3]) +
                [["alphabet", [val(x)]] for x in ("", "a", "ab", "cba", "é日😀")] +
                [["contains", [val(x)]] for x in ("", "a", "ab", "bc", "日", "d")] +
                [["regex", [rx("a", lit("a"))]], ["regex", [rx("ab", ab)]],
                 ["regex", [rx("^", {"r": "at", "a": "bol"})]],
                 ["regex", [rx(".", {"r": "any"})]]])
    i, s = {"a": "schema", "s": gen.S("int")}, {"a": "schema", "s": gen.S("str")}
    forms = [{"a": "list", "xs": xs} for xs in
             ([], [i], [i, s], [ELL], [i, ELL], [ELL, i], [ELL, i, ELL], [i, s, i, ELL], [ELL, s, s])]
    return [None, i] + forms, lens([-1, 0, 1, 2, 3, True])


def first(t, v):
    if v is None:
        return []
    if t == "list":
        return [["", [v]]]
    return [["", [val(v)]]]


def cases(rng, tier, shard, nshards):
    n = 0
    for t in ("int", "float", "str", "list"):
        vs, rs = universe(t)
        for k, p in ((2, 1), (3, TRIPLES[tier]), (4, QUADS[tier])):
            if not p:
                continue
            for v in vs:
                for sub in itertools.combinations_with_replacement(range(len(rs)), k):
                    n += 1
                    if n % nshards != shard:
                        continue
                    ms = [rs[i][0] for i in sub]
                    # a repeated refinement is refused in every order: few of those suffice
                    q = p if len(set(ms)) == len(ms) else (.15 if k == 2 else .02) * p
                    if q >= 1 or rng.random() < q:
                        yield {"t": t, "first": first(t, v), "rs": [rs[i] for i in sub]}
    for _ in range(RANDOM[tier]):
        yield sample(rng)


def sample(rng):
    """Larger arguments than the universe has."""
    g = gen.Gen(rng)
    t = rng.choice(["str", "str", "str", "float", "int", "list"])
    fst, rs = [], []
    if t in ("int", "float"):
        f = g.int_ if t == "int" else g.float_
        pool = [f() for _ in range(2)]
        if rng.random() < .5:
            fst = [["", [val(rng.choice(pool))]]]
        rs = [["min", [val(rng.choice(pool))]], ["max", [val(rng.choice(pool))]]]
        if t == "float":
            rs.append(["precision", [val(rng.randint(0, 16))]])
    else:
        if t == "str":
            v = g.str_()
            n = len(v)
        else:
            es = [{"a": "schema", "s": g.schema(1)} for _ in range(rng.randint(0, 4))]
            n = len(es)
            if rng.random() < .6:
                es = [[ELL] + es, es + [ELL], [ELL] + es + [ELL]][rng.randrange(3)]
            v = {"a": "list", "xs": es} if es not in ([ELL, ELL],) else {"a": "list", "xs": [ELL]}
        if rng.random() < .7:
            fst = [["", [val(v) if t == "str" else v]]]
        ns = [n, n, n + 1, n - 1, n + 5, 0, 2**31, 10**30]
        for _ in range(rng.choice([1, 1, 2])):
            a, b = val(rng.choice(ns)), val(rng.choice(ns))
            rs.append(["len", rng.choice([[a], [a, ELL], [ELL, b], [a, b]])])
        if t == "str":
            al = "".join(sorted(set(v)))
            rs.append(["alphabet", [val(rng.choice([al, al + "q", al[1:], v, "abc"]))]])
            i = rng.randint(0, n)
            rs.append(["contains", [val(rng.choice([v[i:], v[:i], v, v + "x"]))]])
            if rng.random() < .3:
                p = gen.pattern(g.regex_tree(2, validate=True))
                rs.append(["regex", [dict(val(p["p"]), re=[p])]])
    rng.shuffle(rs)
    return {"t": t, "first": fst, "rs": rs[:4]}


def execute(case):
    from d42 import schema
    runs, ref = [], None
    for perm in itertools.permutations(range(len(case["rs"]))):
        s, out = getattr(schema, case["t"]), "ok"
        try:
            calls = [(m, [real(a, 1) for a in args])
                     for m, args in case["first"] + [case["rs"][i] for i in perm]]
        except Exception:
            return []
        for m, args in calls:
            s, exc = core.call(method(s, m), *args)
            if exc is not None:
                out = exc
                break
        if out == "ok" and ref is None:
            ref = s
        runs.append({"outcome": out, "r": enc.proj(s) if out == "ok" else {"t": "none"},
                     "eq": out != "ok" or bool(s == ref and ref == s)})
    return [{"op": "orders", "runs": runs}]


def nontrivial(case, evs):
    return [case["t"], case["first"], sorted(map(str, case["rs"]))]


def describe(case, ev):
    return "%s%s with %s: %s" % (
        case["t"], "".join(call_text(*c) for c in case["first"]),
        " ".join(call_text(*c) for c in case["rs"]),
        " / ".join(r["outcome"] + (" " + show(r["r"]) if r["outcome"] == "ok" else "")
                   for r in ev["runs"]))
