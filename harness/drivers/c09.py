"""C09: strings generated from patterns match them entirely, or generation refuses."""
import random
import re
import warnings

from .. import core, enc, gen, models as models_
from ..tape import MODES, tape, walk

PROP, LEVEL = "C09", "model_checking"
RULE = ("every pattern of MC_Regex, and random ones: "
        "pattern trees over literals and escapes, ., \\d \\w, classes with ranges, categories and "
        "negation, capturing, named and non-capturing groups, alternation, greedy and lazy repetition "
        "with every bound form, anchors at the ends and elsewhere; the same with one unsupported "
        "construct planted at a random place; written patterns with unusual syntax; each generated under "
        "several draw tapes and repeat limits, and through a walk of the outcomes of the draws, fewest "
        "deviations from the all-lowest and all-highest first; non-trivial when (pattern, tape, limit) is distinct")
ASSUMPTIONS = ["inline flags, word boundaries and conditionals are neither listed as supported nor as "
               "unsupported: they may match or be refused"]
N = {"quick": 2600, "thorough": 60000}
WALK = {"quick": 1, "thorough": 8}

TEXT = [  # (pattern, has to generate)
    ("", True), ("a{,3}", True), ("[]a]", True), ("[^]]", True), ("[a\\]b]", True), ("\\x41", True),
    ("\\u00e9", True), ("\\101", True), ("\\N{DIGIT ONE}", True), ("(?#note)a", True), ("(?:)", True),
    ("()", True), ("|", True), ("(|a)", True), ("[\\d_-]", True), ("[+--]", True), ("a{2", True),
    ("a{,}", True), ("{", True), ("}", True), ("]", True), ("a{1,2}?", True), ("(a){0}", True), ("a{0,0}b", True),
    ("[\\n]", True), ("[^\\n]", True), ("\\.", True), ("[.]", True), ("[^.]", True), ("[a-]", True),
    ("[-a]", True), ("[a^]", True), ("[\\^a]", True), ("\\-", True), ("\\/", True), ("(?P<x>a)(?P<y>b)", True),
    ("((((a))))", True), ("(a|b|c|d|e)", True), ("a|b|", True), ("^$", True), ("^\\Z", True), ("\\A$", True),
    ("^a$", True), ("(^a$)", True), ("(?:^a|^b)$", True), ("^(?:a|b$)", True), ("[^a]", True), ("[^ab]", True),
    ("[^\\w]", True), ("[^\\d]", True), ("[^\\w\\d]", True), ("[^ -~]", True), ("[^\\x00-\\uffff]", True),
    ("[^\\x00-\\U0010fffe]", True), ("[\\x00-\\x1f]", True), ("[\\w\\d]", True), ("[^a-z0-9]", True),
    ("[^!-~]", True), ("[^,]{44}", True), ("a{44}", True), ("[^\\,]", True), ("a{33,}", True), ("a{40,50}", True),
    ("(ab){33,}", True), ("(?:a|b){0,40}", True), ("a*?b+?c??", True), ("\\$\\^\\*", True),
    ("(?i)abc", False), ("(?i:a)b", False), ("(?x) a b # c", False), ("(?s).", False), ("(?m)^a$", False),
    ("(?a)\\w", False), ("(?-i:a)", False), ("\\bfoo\\b", False), ("a\\Bb", False), ("a\\bb", False),
    ("a\\B", False), ("\\Ba", False), ("a^b", False), ("a$b", False), ("(a)?(?(1)b|c)", False), ("(?=a)", False),
    ("(?!a)b", False), ("(?<=a)b", False), ("(?<!a)b", False), ("(a)\\1", False), ("(?P<n>a)(?P=n)", False),
    ("\\s", False), ("\\S", False), ("\\D", False), ("\\W", False), ("[\\s]", False), ("[^\\s]", False),
    ("[\\S]", False), ("[\\Da]", False), ("[^\\D]", False), ("[^\\W]", False), ("[^\\Wa]", False), ("(?>a)", False),
    ("(?>a|ab)c", False), ("a++", False), ("a*+a", False), ("a?+a", False), ("a{1,2}+a", False),
    ("[^\\x00-\\U0010ffff]", False), ("(?:\\s)?", False), ("\\S{2}", False), ("x(?=y)y", False), ("(?!)", False),
    ("(?!)|a", False), ("(?i)(?P<k>K)(?P=k)", False), ("(?u)\\w", False), ("(?im)^ab$", False),
    ("(?:a\\B)+", False), ("[a-c&&d]", True), ("[a||b]", True), ("\\\\", True), ("\\t\\r\\f\\v\\a", True),
    ("\\0", True), ("[\\0-\\7]", True), ("é+日?", True), ("[é-ж]", True), ("😀{2}", True), ("[😀-😂]", True),
]


def models(tier, seed):
    def make(p, n, rng):
        return [{"p": p["p"], "x": [p["x"]], "must": False, "mode": m, "tseed": rng.randrange(1 << 30),
                 "rep": 32, "how": "schema", "budget": (40 if n < 2 else 6) * WALK[tier]}
                for m in (MODES + ["walk"] if n < 2 else ["lo", "hi", rng.choice(MODES[2:] + ["walk"] * 2)])]
    return models_.regex(make, tier, seed, laws=True)


def cases(rng, tier, shard, nshards):
    g = gen.Gen(rng)
    for i, (p, must) in enumerate(TEXT):
        if i % nshards == shard:
            for mode in MODES:
                yield {"p": p, "x": [], "must": must, "mode": mode, "tseed": rng.randrange(1 << 30),
                       "rep": 32, "how": "schema"}
            yield {"p": p, "x": [], "must": must, "mode": "walk", "tseed": rng.randrange(1 << 30),
                   "rep": 32, "how": "schema", "budget": 60 * WALK[tier]}
    for _ in range(N[tier]):
        c = rng.random()
        x = g.regex_tree(rng.choice([1, 2, 2, 3]), unsupported=c < .25)
        if c > .93:            # anchors anywhere
            x = {"r": "seq", "xs": [g.rx(1, False), {"r": "at", "a": rng.choice(["bol", "eol", "A", "Z"])},
                                    g.rx(1, False)]}
            if rng.random() < .3:
                x = {"r": rng.choice(["alt", "seq"]), "xs": [x, g.rx(1, False)]}
        elif c > .86:          # anchors at the ends of alternatives and groups
            y = g.rx(1, False)
            z = {"r": "seq", "xs": [{"r": "at", "a": "bol"}, y, {"r": "at", "a": rng.choice(["eol", "Z"])}]}
            x = rng.choice([{"r": "grp", "g": rng.choice(["cap", "non"]), "x": z},
                            {"r": "alt", "xs": [z, g.rx(1, False)]}])
        p = gen.pattern(x)
        if rng.random() < .04:  # flags that change nothing here: not listed, so refused or matched
            f = rng.choice("smau")
            q = rng.choice([p["p"].replace("(?:", "(?%s:" % f, 1), "(?%s)%s" % (f, p["p"]),
                            "(?%s:%s)" % (f, p["p"]), "(?:a|(?-i:%s))" % p["p"]])
            for mode in rng.sample(MODES, 2):
                yield {"p": q, "x": [], "must": False, "mode": mode, "tseed": rng.randrange(1 << 30),
                       "rep": 32, "how": "schema"}
        how = rng.choice(["schema", "schema", "schema", "direct"])
        for mode in ["lo", "hi", rng.choice(MODES[2:])] + ["walk"] * (rng.random() < .4):
            yield {"p": p["p"], "x": [p["x"]], "must": False, "mode": mode, "tseed": rng.randrange(1 << 30),
                   "budget": 20 * WALK[tier], "rep": 32 if how == "schema" else rng.choice([0, 1, 2, 5, 32, 40]), "how": how}


def execute(case):
    from d42 import schema
    warnings.simplefilter("ignore")
    try:
        re.compile(case["p"])
    except Exception:
        return []
    s, exc = core.call(lambda: schema.str.regex(case["p"]))
    if exc:
        return []       # C10's
    if case["mode"] != "walk":
        return one(case, s, case["mode"])
    evs, seen = [], set()

    def run(script):
        for ev in one(case, s, script):
            key = (tuple(ev["t"]), ev["exc"], ev["full"], ev["nerr"])
            if key not in seen:
                seen.add(key)
                evs.append(ev)
    whole = walk(run, case["budget"], case["tseed"])
    if evs:
        evs[0]["outcomes"] = [len(evs), whole]
    return evs


def one(case, s, mode):
    import d42
    from d42 import validate
    from d42.generation import Random, RegexGenerator
    with tape(mode, case["tseed"]):
        if case["how"] == "schema":
            v, exc = core.call(d42.fake, s)
        else:
            v, exc = core.call(RegexGenerator(Random(), max_repeat=case["rep"]).generate, case["p"])
    ev = {"op": "regex", "x": case["x"], "must": case["must"], "exc": exc or "", "t": [], "full": True,
          "nerr": 0, "long": False}
    if exc is None:
        if type(v) is not str:
            return [dict(ev, full=False)]
        ev["t"] = enc.text(v) if len(v) <= 120 else []
        ev["long"] = len(v) > 120
        full, e2 = core.call(lambda: re.fullmatch(case["p"], v) is not None, limit=2)
        if e2:
            return []       # Python's matcher does not finish on this pattern
        ev["full"] = full
        res, e2 = core.call(validate, s, v, limit=2)
        if e2 == "HarnessTimeout":
            return []
        ev["nerr"] = 99 if e2 else len(res.get_errors())
    return [ev]


def tally(case, evs):
    n, whole = evs[0].get("outcomes", (0, False))
    return {"patterns_walked": n > 0, "walked_completely": whole, "distinct_texts_of_walks": n}


def nontrivial(case, evs):
    return [case["p"], case["mode"], case["rep"], case["tseed"] if case["mode"] in ("rand", "mix", "walk") else 0]


def describe(case, ev):
    return "%r [%s, repeat %d] -> %s %r full=%s nerr=%d" % (
        case["p"], case["mode"], case["rep"], ev["exc"], enc.untext(ev["t"])[:200], ev["full"], ev["nerr"])
