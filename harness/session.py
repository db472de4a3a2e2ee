"""Operations of the C07 sessions: one request, run here or in a process of its own."""
import json
import os
import random
import re
import select
import sys

from . import build, core, enc
from .calls import method, real

TYPES = ["none", "bool", "int", "float", "str", "bytes", "list", "dict", "any", "uuid4", "datetime", "date"]


def clock(s):
    t = s["t"]
    if t in ("uuid4", "datetime", "date"):
        return not s["value"]
    if t == "list":
        return any(map(clock, s["type"])) or any(clock(x) for es in s["elems"] for x in es)
    if t == "dict":
        return any(clock(x) for ks in s["keys"] for _, x, _ in ks)
    if t == "any":
        return any(clock(x) for ts in s["types"] for x in ts)
    return clock(s["type"] if t == "alias" else s["inner"]) if t in ("alias", "custom") else False


def strip(x):
    return re.sub(r"0x[0-9a-f]+|\d+ bytes|anon:[\w:]+", "0x", x)


def errors(res):
    from d42.validation import Formatter, format_result
    f = Formatter()
    out = [[type(e).__name__, e.format(f)] for e in res.get_errors()]
    return strip(json.dumps([out, format_result(res)]))


def tell(x):
    """What a result is, as text."""
    from d42.declaration import Schema
    from d42.validation import ValidationResult
    if isinstance(x, Schema):
        r, exc = core.call(repr, x, limit=10)
        return "schema %s %s" % (json.dumps(enc.proj(x)), strip(r if exc is None else exc))
    if isinstance(x, ValidationResult):
        return errors(x)
    if isinstance(x, tuple) and x and x[0] == "many":
        return "[" + " ; ".join(map(tell, x[1])) + "]"
    return json.dumps(enc.enc(x))


def do(o, objs, x):
    import d42
    from d42 import schema
    from d42.generation import Random
    from d42.utils import from_native, make_required
    from th import PathHolder
    s = objs[0] if objs else None
    if o == "base":
        return getattr(schema, x)
    if o == "call":
        return method(s, x)(*objs[1:])
    if o == "alias":
        return schema.alias(x, s)
    if o == "any":
        return schema.any(*objs)
    if o == "list":
        return schema.list(objs[0])
    if o == "dict":
        return schema.dict(objs[0])
    if o == "or":
        return s | objs[1]
    if o == "plus":
        return s + objs[1]
    if o == "mod":
        return s % objs[1]
    if o == "substitute":
        return d42.substitute(s, objs[1])
    if o == "validate":
        return d42.validate(s, objs[1])
    if o == "validate_at":
        p = PathHolder()["x"][0]
        r = d42.validate(s, objs[1], path=p)
        return ("many", [r, repr(p)])
    if o == "vof":
        return d42.validate_or_fail(s, objs[1])
    if o == "eqv":
        return ("many", [s == objs[1], s != objs[1]])
    if o == "eq":
        return ("many", [s == objs[1], s != objs[1]])
    if o == "repr":
        return ("many", [d42.represent(s), repr(s)])
    if o == "req":
        return make_required(*objs)
    if o == "index":
        return s[objs[1]]
    if o == "get":
        return s.get(objs[1])
    if o == "in":
        return objs[1] in s
    if o == "iter":
        return ("many", [x for x in s])
    if o == "keys":
        return ("many", [y for y in s.keys()])
    if o == "items":
        return ("many", [y for kv in s.items() for y in kv])
    if o == "len":
        return len(s)
    if o == "native":
        return from_native(s)
    if o in ("fake", "invert"):
        if x is not None:
            Random().set_seed(x)
        return d42.fake(s) if o == "fake" else ~s
    raise ValueError(o)


def run(o, objs, x, limit=10):
    """(text of the outcome, result or None)"""
    box = []

    def f():
        try:
            box.append(do(o, objs, x))
        except core.HarnessTimeout:
            raise
        except RecursionError:
            return "raised RecursionError"
        except Exception as e:
            try:
                m = str(e)
            except Exception:
                m = "?"
            return "raised %s: %s" % (type(e).__name__, strip(m))
        return None
    r, exc = core.call(f, limit=limit)
    if exc:
        return "raised " + exc, None
    if r is not None:
        return r, None
    t, exc = core.call(tell, box[0], limit=limit)
    return (t, box[0]) if exc is None else ("untold " + exc, box[0])


def objects(req):
    return [real(a) for a in req["A"]]


def observe(s, proj, probes, seed):
    """Everything there is to see of a schema, as text."""
    import d42
    out = [tell(s)]
    for w in probes:
        v = enc.dec(w)
        r, exc = core.call(d42.validate, s, v, limit=5)
        out.append(errors(r) if exc is None else exc)
    if not clock(proj):
        out.append(run("fake", [s], seed, limit=5)[0])
    if probes:
        out.append(run("mod", [s, enc.dec(probes[0])], None, limit=5)[0])
    if proj["t"] in ("dict", "any"):
        out.append(run("iter", [s], None)[0])
    return out


def canary():
    """What a fixed set of operations gives: nothing done before may show in it."""
    import datetime
    import uuid
    from d42 import fake, optional, represent, schema, substitute, validate
    from d42.generation import Random
    from d42.utils import from_native, make_required, rollout
    u, d = uuid.UUID("886313e1-3b8a-4372-9b90-0c9aee199e5d"), datetime.date(2020, 1, 2)
    res = [schema.str.regex(p) for p in (
        ".{60}", r"\w{60}", r"\d{30}", "[^a]{40}", r"[^\w]{20}", "[^ -~]{3}", "(a|b|c){5}x*", "[a-f0-9]{12}", "^a.?$")]
    gens = [schema.none, schema.bool, schema.int, schema.int.min(5), schema.int.max(-5), schema.float, schema.str,
            schema.float.min(0.5).max(2.5), schema.float.precision(2), schema.str.len(40), schema.bytes,
            schema.str.alphabet("abc").len(9), schema.str.contains("ab"), schema.str.len(2, 4), schema.list,
            schema.list(schema.int), schema.list([schema.int, ...]), schema.list([..., schema.str]).len(3),
            schema.list([..., schema.int, ...]), schema.list(schema.str).len(2, ...), schema.dict, schema.any,
            schema.dict({"a": schema.int, optional("b"): schema.str, ...: ...}), schema.any(schema.int, schema.str),
            schema.alias("Al", schema.int), schema.bytes(b"a"), schema.uuid4(u), schema.date(d), schema.str(""),
            schema.int(0), schema.list([]), schema.dict({})] + res
    values = [None, True, 0, 1, 1.0, "", "ab", b"a", u, uuid.UUID(int=0), d, [], [1], ["x", 2], {}, {"a": 1},
              {"a": "x", "b": 2, "c": 3}, (1,)]
    out = []
    for k, s in enumerate(gens):
        Random().set_seed(k)
        a = [core.call(fake, s) for _ in range(2)]
        out.append("fake " + json.dumps([[enc.enc(v), e] for v, e in a]))
        out.append("repr " + represent(s) + json.dumps(enc.proj(s)))
        for v in values:
            out.append(errors(validate(s, v)))
            r, exc = core.call(substitute, s, v)
            out.append(exc or json.dumps(enc.proj(r)))
    for v in values:
        r, exc = core.call(from_native, v)
        out.append(exc or json.dumps(enc.proj(r)))
    ds = [schema.dict, schema.dict({}), schema.dict({"a": schema.int, optional("b"): schema.str, ...: ...})]
    for x in ds:
        out.append(json.dumps([enc.proj(make_required(x)), [enc.proj(x + y) for y in ds]]))
    out.append(repr(rollout({"a.b": 1, optional("a.c"): 2, "d": 3})))
    for m, a in [("int", ("x",)), ("str", (1,)), ("list", (1,)), ("dict", (1,)), ("any", (1,))]:
        r, exc = core.call(lambda: getattr(schema, m)(*a))
        out.append(str(exc))
    return [strip(x) for x in out]


def serve(req):
    if req["o"] == "canary":
        return canary()
    if req["o"] == "observe":
        s = real({"a": "schema", "s": req["s"]})
        p = enc.proj(s)
        if p != req["s"]:
            return None
        return observe(s, p, req["probes"], req["seed"])
    objs = objects(req)
    for a, o in zip(req["A"], objs):
        if not rebuilt(a, o):
            return None
    return run(req["o"], objs, req["x"])[0]


def rebuilt(a, o):
    """Is the object the one described?"""
    if a["a"] == "schema":
        return enc.proj(o) == a["s"]
    if a["a"] == "list":
        return all(map(rebuilt, a["xs"], o))
    if a["a"] == "dict":
        return len(o) == len(a["ps"]) and all(rebuilt(p[1], x) for p, x in zip(a["ps"], o.values()))
    return a["a"] != "val" or enc.enc(o) == a["v"]


class Zygote:
    """A process that has done nothing yet; every request runs in a fork of it."""

    def __init__(self):
        self.patterns = 0
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a[1])
            os.close(b[0])
            try:
                self.loop(os.fdopen(a[0]), b[1])
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r = os.fdopen(a[1], "w"), os.fdopen(b[0])

    def loop(self, inp, out):
        for line in inp:
            pid = os.fork()
            if pid == 0:
                try:
                    req = json.loads(line)
                    enc.PATTERNS.update(req.pop("patterns"))
                    res = serve(req)
                except BaseException as e:  # noqa
                    res = None
                data = (json.dumps(res) + "\n").encode()
                while data:
                    data = data[os.write(out, data):]
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, req):
        self.w.write(json.dumps(dict(req, patterns=dict(enc.PATTERNS))) + "\n")
        self.w.flush()
        return json.loads(self.r.readline())

    def close(self):
        self.w.close()
        self.r.close()
        os.waitpid(self.pid, 0)
