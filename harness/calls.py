"""Arguments and calls of the declaration language (spec/Declaration.tla)."""
import random

from . import build, enc
from .common import show


def val(v, **kw):
    return {"a": "val", "v": enc.enc(v), **kw}


def real(a, seed=0):
    """The Python object an abstract argument stands for."""
    from d42 import optional
    from niltype import Nil
    k = a["a"]
    if k == "val":
        for x in a.get("re", []):
            enc.PATTERNS[x["p"]] = x["x"]
        return enc.dec(a["v"])
    if k == "schema":
        return build.build(a["s"], random.Random(seed))
    if k == "ell":
        return ...
    if k == "nil":
        return Nil
    if k == "list":
        return [real(x, seed) for x in a["xs"]]
    if k == "dict":
        return {(optional(enc.dec(p["v"])) if p["opt"] else enc.dec(p["v"])): real(x, seed)
                for p, x in a["ps"]}
    raise ValueError(k)


def method(s, m):
    return s if m == "" else getattr(s, m)


def short(a):
    k = a["a"]
    if k == "val":
        return repr(enc.dec(a["v"]))[:80]
    if k == "schema":
        return show(a["s"])
    if k == "list":
        return "[" + ", ".join(map(short, a["xs"])) + "]"
    if k == "dict":
        return "{" + ", ".join("%s%r: %s" % ("?" if p["opt"] else "", enc.dec(p["v"]), short(x))
                               for p, x in a["ps"]) + "}"
    return {"ell": "...", "nil": "Nil"}[k]


def call_text(m, args):
    return ".%s(%s)" % (m, ", ".join(map(short, args)))
