"""Child process of the C17 driver: one line of JSON per case in, the generated values out."""
import json
import random
import sys


def seed_of(k):
    t, v = k
    return {"int": int, "float": float, "str": str, "bytes": lambda x: bytes(x),
            "bytearray": lambda x: bytearray(x)}[t](v)


def sequence(case, noise=0):
    """Values generated for the case's schemas after seeding."""
    import d42
    from d42.generation import Random
    from . import build, core, enc
    r = random.Random(case["seed"])
    ss = []
    for a in case["ss"]:
        s = build.build(a, r)
        ss.append(s)
    for x in case.get("subs", []):
        i, v = x
        try:
            ss[i] = ss[i] % enc.dec(v)
        except Exception:
            pass
    if noise:
        for s in ss[::-1][:noise]:
            core.call(d42.fake, s, limit=5)
            core.call(repr, s)
            core.call(d42.validate, s, {"a": [1]})
    rnd = Random()
    rnd.set_seed(seed_of(case["k"]))
    out = []
    for s in ss:
        v, exc = core.call(d42.fake, s, limit=10)
        out.append({"k": "raised", "x": exc} if exc else enc.enc(v))
    return out


def histories(case):
    """What each history of the case generates, as [[value, ...], ...]."""
    import d42
    from d42.generation import Generator, Random, RegexGenerator
    from d42.utils import from_native
    from . import build, core, enc
    r = random.Random(case["seed"])
    out = []

    def fresh():
        return [build.build(a, random.Random(case["seed"] + i)) for i, a in enumerate(case["ss"])]
    ss = fresh()
    other = {
        "validate": lambda: [d42.validate(s, w) for s in ss for w in ws],
        "repr": lambda: [repr(s) for s in ss],
        "substitute": lambda: [core.call(lambda: s % w) for s, w in zip(ss, ws)],
        "equal": lambda: [(s == t, s == ws[0]) for s in ss for t in ss],
        "declare": lambda: [d42.schema.str.regex("[^a]{2,4}b|c*"), d42.schema.list(ss), ss[0] | ss[1],
                            d42.schema.dict({"a": ss[0], ...: ...}), from_native([1, "a", {}])],
        "refuse": lambda: [core.call(lambda: d42.schema.int.min("a")), core.call(lambda: from_native(object())),
                           core.call(lambda: d42.schema.int(1) % "a"),
                           core.call(lambda: d42.schema.str.regex("(")),
                           core.call(d42.validate_or_fail, d42.schema.int, "a")],
        "new-random": lambda: [Random(), Generator(Random(), RegexGenerator(Random())).__class__],
    }
    for ops in case["histories"]:
        ws = [enc.dec(w) for w in case["ws"]]
        if r.random() < .3:
            ss = fresh()
        vs = []
        for op in ops:
            if op["o"] == "seed":
                Random().set_seed(seed_of(case["keys"][op["i"] - 1]))
            elif op["o"] == "gen":
                v, exc = core.call(d42.fake, ss[op["i"] - 1], limit=10)
                vs.append({"k": "raised", "x": exc} if exc else enc.enc(v))
            else:
                core.call(other[op["o"]], limit=10)
        out.append(vs)
    return out


def texts(case):
    """What the case's schemas print as."""
    from . import core
    from .drivers.c01 import make
    out = []
    for c in case["items"]:
        try:
            s, _ = make(c)
        except Exception:
            out.append("not built")
            continue
        t, exc = core.call(repr, s, limit=10)
        out.append("raised " + exc if exc else ascii(t))
    return out


def main():
    import warnings
    warnings.simplefilter("ignore")
    from . import zoo  # noqa
    for line in sys.stdin:
        case = json.loads(line)
        try:
            out = texts(case) if "items" in case else histories(case) if "histories" in case else sequence(case)
        except Exception as e:
            out = [{"k": "raised", "x": "harness " + repr(e)[:200]}]
        print(json.dumps(out), flush=True)


if __name__ == "__main__":
    main()
