"""C06: the printed form of a schema is a program that declares it."""
import ast
import datetime
import json
import random
import uuid

from .. import build, core, enc, gen, models as models_
from ..common import show

PROP, LEVEL = "C06", "model_checking"
RULE = ("every schema of MC_Schemas, a share of MC_SchemasDeep, and random ones: "
        "declared schemas of every type, constraint combination and nesting, results of + | "
        "make_required; the text is parsed into a program of the declaration language which the "
        "specification evaluates, and is also evaluated by Python; non-trivial when the schema is "
        "distinct and has a constraint or a member")
ASSUMPTIONS = ["harness/drivers/c06.py turns the Python expression into calls and constants",
               "nan dict keys and values of user-defined classes are not generated"]
N = {"quick": 4000, "thorough": 60000}
NS = {"UUID": uuid.UUID, "datetime": datetime}


class NotInLanguage(Exception):
    pass


def names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def const(node, src):
    bad = names(node) - {"UUID", "datetime"}
    if bad:
        raise NotInLanguage(",".join(bad))
    return eval(compile(ast.Expression(node), "<repr>", "eval"), dict(NS, __builtins__={}))


def prog(node, src):
    """schema.<type>(args).<method>(args)... -> program"""
    calls = []
    while True:
        if isinstance(node, ast.Call):
            args = [arg(a, src) for a in node.args]
            if node.keywords or not args:
                raise NotInLanguage("call")
            f = node.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                if f.value.id != "schema":
                    raise NotInLanguage(f.value.id)
                calls.append(["", args])
                node = f
            elif isinstance(f, ast.Attribute):
                calls.append([f.attr, args])
                node = f.value
            else:
                raise NotInLanguage("call of call")
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            if node.value.id != "schema":
                raise NotInLanguage(node.value.id)
            break
        else:
            raise NotInLanguage(ast.dump(node)[:80])
    calls = calls[::-1]
    for c in calls:
        if c[0] == "regex" and c[1][0]["a"] == "val" and c[1][0]["v"]["k"] == "str":
            c[1][0]["re"] = [enc._pattern(enc.untext(c[1][0]["v"]["t"]))]
    return {"base": node.attr, "calls": calls}


def arg(node, src):
    if isinstance(node, ast.Constant) and node.value is ...:
        return {"a": "ell"}
    if "schema" not in names(node) and not isinstance(node, (ast.List, ast.Dict)):
        return {"a": "val", "v": enc.enc(const(node, src))}
    if isinstance(node, ast.List):
        return {"a": "list", "xs": [arg(x, src) for x in node.elts]}
    if isinstance(node, ast.Dict):
        ps = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                raise NotInLanguage("**")
            opt = isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == "optional"
            if opt:
                if len(k.args) != 1 or k.keywords:
                    raise NotInLanguage("optional")
                k = k.args[0]
            ps.append([{"opt": opt, "v": enc.enc(const(k, src))}, arg(v, src)])
        return {"a": "dict", "ps": ps}
    return {"a": "prog", "prog": prog(node, src)}


def models(tier, seed):
    return models_.grid(lambda s, vs, r: [] if '"alias"' in repr(s).replace("'", '"') else [
        {"how": "dsl", "s": s, "seed": i} for i in range(2)], tier, seed)


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng, alias=False)
    g.extra_keys = [float("inf"), 10**30, -float("inf"), (1, float("inf")), 2**63, (), b""]
    batch = []
    for _ in range(N[tier]):
        c = rng.random()
        case = {"how": "dsl", "seed": rng.randrange(1 << 30)}
        if c < .8:
            case["s"] = g.schema(rng.choice([0, 1, 1, 2, 2, 3, 4]))
        elif c < .87:
            case.update(how="union", s=g.schema(1), s2=g.schema(2))
        elif c < .94:
            case.update(how="add", s=g.s_dict(2), s2=g.s_dict(2))
        else:
            case.update(how="required", s=g.s_dict(2))
        yield case
        batch.append(case)
        if len(batch) == 50:
            rng.shuffle(batch)
            yield {"how": "fresh", "items": batch, "seed": rng.randrange(1 << 30)}
            batch = []


def elsewhere(case):
    """What the same declarations print as in interpreters with other hash seeds."""
    from ..seqgen import texts
    from .c17 import HASHES, child
    ps = [child(h) for h in HASHES]
    for p in ps:
        p.stdin.write(json.dumps(case) + "\n")
        p.stdin.flush()
    runs = [texts(case)] + [json.loads(p.stdout.readline()) for p in ps]
    if any(str(x).find("harness ") >= 0 for r in runs for x in r[:1] if isinstance(x, dict)):
        raise RuntimeError(str(runs)[:500])
    return [{"op": "reprs", "n": len(case["items"]), "runs": runs}]


def execute(case):
    import d42
    if case["how"] == "fresh":
        return elsewhere(case)
    from .c01 import make
    try:
        s, a = make(case)
    except Exception:
        return []
    ev = {"op": "repr", "s": a, "raised": "", "parsed": True, "prog": {"base": "none", "calls": []},
          "evalexc": "", "eq": True, "same": True, "det": True, "text": ""}
    text, exc = core.call(repr, s)
    if exc:
        return [dict(ev, raised=exc)]
    ev["text"] = text[:1500]
    t2, exc = core.call(d42.represent, s)
    ev["det"] = exc is None and t2 == text and repr(s) == text
    try:
        ev["prog"] = prog(ast.parse(text, mode="eval").body, text)
    except (SyntaxError, NotInLanguage, NameError, TypeError, ValueError, AttributeError) as e:
        return [dict(ev, parsed=False, text=text[:1500] + "  <- " + repr(e))]
    r, exc = core.call(eval, text, dict(NS, schema=d42.schema, optional=d42.optional))
    if exc:
        return [dict(ev, evalexc=exc)]
    eq, exc = core.call(lambda: bool(r == s and s == r and not r != s))
    ev["eq"] = exc is None and eq
    ev["same"] = repr(r) == text
    return [ev]


def nontrivial(case, evs):
    e = evs[0]
    if e["op"] == "reprs":
        return e["runs"][0]
    return [e["s"]] if "(" in e["text"] else None


def describe(case, ev):
    if ev["op"] == "reprs":
        return next((repr(x)[:1200] for x in zip(*ev["runs"]) if len(set(x)) > 1), "?")
    return "%s -> %r evalexc=%s eq=%s same=%s det=%s" % (
        show(ev["s"]), ev["text"], ev["evalexc"], ev["eq"], ev["same"], ev["det"])
