"""One-place changes of an abstract schema."""
import copy

from . import enc, gen


def nodes(s, out=None):
    out = [] if out is None else out
    out.append(s)
    t = s["t"]
    if t == "list":
        for x in s["type"] + (s["elems"][0] if s["elems"] else []):
            nodes(x, out)
    elif t == "dict":
        for _, x, _ in (s["keys"][0] if s["keys"] else []):
            nodes(x, out)
    elif t == "any":
        for x in (s["types"][0] if s["types"] else []):
            nodes(x, out)
    elif t == "alias":
        nodes(s["type"], out)
    elif t == "custom":
        nodes(s["inner"], out)
    return out


def near_str(g, v):
    for _ in range(20):
        w = g.perturb(v)
        if type(w) is str:
            return w
    return v + "x"


def one_of(n, fs, r):
    """A parameter of the node, a declared one more often than not."""
    declared = [f for f in fs if n[f]]
    return r.choice(declared if declared and r.random() < .6 else fs)


def near_tree(x, r):
    """A pattern that differs in one letter, at one of its ends most of the time."""
    lit = {"r": "lit", "c": r.choice([32, 32, 10, 9, 97, 65, 46, 48, 36])}
    c = r.random()
    if c < .35:
        return {"r": "seq", "xs": [x, lit]}
    if c < .65:
        return {"r": "seq", "xs": [lit, x]}
    if c < .75:
        return {"r": "alt", "xs": [x, {"r": "seq", "xs": []}]}
    if c < .8:
        return {"r": "seq", "xs": [x, {"r": "at", "a": r.choice(["eol", "Z"])}]}
    x = copy.deepcopy(x)
    ls = []

    def walk(y):
        if isinstance(y, dict):
            if y.get("r") == "lit":
                ls.append(y)
            y = list(y.values())
        if isinstance(y, list):
            for z in y:
                walk(z)
    walk(x)
    if ls:
        y = r.choice(ls)
        y["c"] = y["c"] ^ 32 if chr(y["c"]).isascii() and chr(y["c"]).isalpha() and r.random() < .5 else lit["c"]
        return x
    return {"r": "seq", "xs": [x, lit]}


def mutate(s, r):
    """A copy of s with one declared thing changed (may not be declarable)."""
    s = copy.deepcopy(s)
    ns = [n for n in nodes(s) if n["t"] != "ell"]
    n = r.choice(ns)
    g = gen.Gen(r)
    t = n["t"]

    def become(m):
        n.clear()
        n.update(m)
        return s
    if r.random() < .12:
        return become(g.schema(1))
    if t in ("int", "float"):
        f = one_of(n, ["value", "min", "max"] + (["prec"] if t == "float" else []), r)
        if n[f]:
            if r.random() < .3:
                n[f] = []
            elif f == "prec":
                n[f] = [max(1, min(15, n[f][0] + r.choice([-1, 1])))]
            else:
                x = enc.dec(n[f][0])
                try:
                    y = g.perturb(x)
                    n[f] = [enc.enc(y if type(y) is type(x) else x + 1)]
                except (OverflowError, ValueError):
                    pass
        else:
            n[f] = [r.randint(1, 15)] if f == "prec" else [enc.enc(g.int_() if t == "int" else g.float_())]
        return s
    if t == "str":
        f = one_of(n, ["value", "len", "minlen", "maxlen", "alphabet", "substr", "pattern"], r)
        if n[f] and r.random() < .4:
            n[f] = []
        elif f == "value":
            n[f] = [enc.enc(near_str(g, enc.dec(n[f][0])) if n[f] else g.str_())]
        elif f in ("len", "minlen", "maxlen"):
            n[f] = [max(0, n[f][0] + r.choice([-1, 1]))] if n[f] else [r.randint(0, 4)]
            if f == "len":
                n["minlen"] = n["maxlen"] = []
            else:
                n["len"] = []
        elif f in ("alphabet", "substr"):
            n[f] = [n[f][0] + [r.choice([97, 98, 113])]] if n[f] and r.random() < .4 else [
                enc.text(near_str(g, enc.untext(n[f][0])) if n[f] and r.random() < .7 else r.choice(
                    gen.ALPHABETS))]
        else:
            n[f] = [gen.pattern(near_tree(n[f][0]["x"], r) if n[f] and r.random() < .8 else
                                g.regex_tree(2, validate=True))]
        return s
    if t in ("bool", "bytes", "uuid4", "datetime", "date"):
        if n["value"] and r.random() < .3:
            n["value"] = []
        else:
            n["value"] = [enc.enc({"bool": lambda: r.random() < .5, "bytes": g.bytes_, "uuid4": g.uuid_,
                                   "datetime": g.datetime_, "date": g.date_}[t]())]
        return s
    if t == "list":
        c = r.random()
        if c < .3:
            f = r.choice(["len", "minlen", "maxlen"])
            n[f] = [max(0, n[f][0] + r.choice([-1, 1]))] if n[f] and r.random() < .7 else (
                [] if n[f] else [r.randint(0, 4)])
            if f == "len" and n[f]:
                n["minlen"] = n["maxlen"] = []
            elif n[f]:
                n["len"] = []
        elif c < .45:
            n["type"] = [] if n["type"] else [g.schema(0)]
            if n["type"]:
                n["elems"] = []
        elif n["elems"]:
            es = n["elems"][0]
            i = r.randrange(len(es) + 1)
            op = r.choice(["ins", "del", "ell", "swap", "off"])
            if op == "ins":
                es.insert(i, g.schema(0))
            elif op == "del" and es:
                es.pop(r.randrange(len(es)))
            elif op == "ell":
                es.insert(r.choice([0, len(es)]), {"t": "ell"})
            elif op == "swap" and len(es) > 1:
                j = r.randrange(len(es) - 1)
                es[j], es[j + 1] = es[j + 1], es[j]
            else:
                n["elems"] = []
        elif not n["type"]:
            n["elems"] = [[g.schema(0) for _ in range(r.randint(0, 2))]]
        return s
    if t == "dict":
        if not n["keys"]:
            n["keys"] = [[[enc.enc(g.key_()), g.schema(0), r.random() < .5]]] if r.random() < .7 else [[]]
            return s
        ks = n["keys"][0]
        ell = [k for k in ks if k[0]["k"] == "ell"]
        op = r.choice(["opt", "opt", "del", "add", "key", "ell", "order", "off"])
        real = [k for k in ks if k[0]["k"] != "ell"]
        if op == "opt" and real:
            k = r.choice(real)
            k[2] = not k[2]
        elif op == "del" and ks:
            ks.pop(r.randrange(len(ks)))
        elif op == "add":
            k = g.key_()
            if all(enc.dec(q[0]) != k for q in real):
                ks.insert(r.randint(0, len(ks)), [enc.enc(k), g.schema(0), r.random() < .5])
        elif op == "key" and real:
            k = g.key_()
            if all(enc.dec(q[0]) != k for q in real):
                r.choice(real)[0] = enc.enc(k)
        elif op == "ell":
            if ell:
                ks.remove(ell[0])
            else:
                ks.insert(r.randint(0, len(ks)), [{"k": "ell"}, {"t": "ell"}, False])
        elif op == "order":
            r.shuffle(ks)
        else:
            n["keys"] = []
        return s
    if t == "any":
        if not n["types"]:
            n["types"] = [[g.schema(0) for _ in range(r.randint(1, 3))]]
            return s
        ts = n["types"][0]
        op = r.choice(["add", "del", "swap", "off", "dup"])
        if op == "add":
            ts.insert(r.randint(0, len(ts)), g.schema(0))
        elif op == "del" and len(ts) > 1:
            ts.pop(r.randrange(len(ts)))
        elif op == "swap":
            r.shuffle(ts)
        elif op == "dup":
            ts.append(copy.deepcopy(r.choice(ts)))
        else:
            n["types"] = []
        return s
    if t == "alias":
        if r.random() < .5:
            n["name"] = [n["name"][0] + "x"] if isinstance(n["name"][0], str) else n["name"]
        else:
            return become(copy.deepcopy(n["type"]))
        return s
    return become(g.schema(0))
