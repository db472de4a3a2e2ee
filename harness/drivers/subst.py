"""What the three substitution drivers (C04, C05, C12) share."""
import random

from .. import build, core, enc, gen, zoo
from ..common import show
from ..tape import MODES, tape


def partial(v, r, p=.3):
    """Leave out some dict keys, at any depth."""
    if type(v) is dict:
        return {k: partial(x, r, p) for k, x in v.items() if r.random() > p}
    if type(v) is list:
        return [partial(x, r, p) for x in v]
    return v


def overlay(v, c):
    """c (a conforming value) with v's data put over it."""
    if type(v) is dict and type(c) is dict:
        out = {k: (overlay(v[k], x) if k in v else x) for k, x in c.items()}
        out.update({k: x for k, x in v.items() if k not in out})
        return out
    if type(v) is list and type(c) is list and len(v) == len(c):
        return [overlay(a, b) for a, b in zip(v, c)]
    return v


def placeholders(v, r):
    c = r.random()
    if type(v) is list and c < .7:
        return r.choice([v + [...], [...] + v, [...] + v + [...], v[:1] + [...] + v[1:], [...], [..., ...],
                         [placeholders(x, r) for x in v]])
    if type(v) is dict and v and c < .8:
        k = r.choice(list(v))
        return r.choice([{**v, k: ...}, {**v, ...: ...}, {**v, ...: 1}, {**v, k: placeholders(v[k], r)}])
    return v if c < .5 else ...


def make_cases(rng, tier, n, *, plain=.9, custom=False, values=1):
    g = gen.Gen(rng, sat=True, custom=custom, otherzoo=zoo.JUDGED)
    for _ in range(n[tier]):
        s = g.schema(rng.choice([0, 1, 1, 2, 2, 3]))
        for _ in range(values):
            c = rng.random()
            try:
                v = g.conf(s) if c < .93 else g.value(2, plain=True)
            except gen.GiveUp:
                v = g.value(2, plain=True)
            if rng.random() < .5:
                v = partial(v, rng)
            if rng.random() < .12:
                v = g.perturb(v)
            if rng.random() > plain:
                c = rng.random()
                try:
                    v = (g.perturb(v, hostile=True) if c < .55 else placeholders(v, rng))
                except (TypeError, OverflowError):
                    continue
            try:
                ev = enc.enc(v)
            except RecursionError:
                continue
            yield {"s": s, "v": ev, "seed": rng.randrange(1 << 30)}


def grid_cases(s, vs, rng):
    """One case per schema of the exhaustive model: every value substituted, probed with every value."""
    return [{"s": s, "grid": vs, "seed": rng.randrange(1 << 30)}]


def observe(op, case, probes=6, gens=3, idem=True):
    if "grid" in case:
        out = []
        for i, v in enumerate(case["grid"]):
            out += observe(op, {"s": case["s"], "v": v, "seed": case["seed"] + i, "ws": case["grid"]},
                           probes=0, gens=2, idem=idem)
        return out
    import d42
    from d42 import substitute, validate
    from d42.substitution.errors import SubstitutionError
    r = random.Random(case["seed"])
    try:
        s = build.build(case["s"], r)
    except Exception:
        return []
    v = enc.dec(case["v"])
    ev = {"op": op, "s": case["s"], "v": case["v"], "outcome": "ok", "rv": True, "genexc": "",
          "genbad": False, "idem": "equal", "ws": [], "rs": {"t": "none"}}
    f = r.choice([lambda: substitute(s, v), lambda: s % v])
    try:
        with core.cpu_limit(20):
            R = f()
    except SubstitutionError:
        return [dict(ev, outcome="SubstitutionError")]
    except core.HarnessTimeout:
        return [dict(ev, outcome="HarnessTimeout")]
    except BaseException as e:  # noqa
        return [dict(ev, outcome="raised " + type(e).__name__)]
    ev["rs"] = enc.proj(R)
    ok, exc = core.call(lambda: not validate(R, v).has_errors())
    ev["rv"] = bool(ok) if not exc else False
    ws = []
    for mode in ["lo", "hi", r.choice(MODES[2:])][:gens]:
        with tape(mode, case["seed"]):
            w, exc = core.call(d42.fake, R)
        if exc:
            ev["genexc"] = exc
            break
        res, exc = core.call(validate, R, w)
        if exc or res.has_errors():
            ev["genbad"] = True
        ws.append((w, True))
    g = gen.Gen(r, sat=True)
    cand = [v]
    for i in range(probes):
        try:
            c = r.random()
            if c < .3:
                w = overlay(v, g.conf(case["s"]))
            elif c < .5:
                w = g.perturb(overlay(v, g.conf(case["s"])))
            elif c < .65:
                w = g.perturb(v)
            elif c < .75 and ws:
                w = g.perturb(ws[0][0])
            elif c < .9:
                w = g.conf(ev["rs"])
                if r.random() < .5:
                    w = g.perturb(w)
            else:
                w = g.conf(case["s"])
            cand.append(w)
        except (gen.GiveUp, TypeError, OverflowError, KeyError):
            pass
    if op != "subst12":
        cand += [enc.dec(w) for w in case.get("ws", [])]
    for w, is_gen in ws + [(w, False) for w in cand]:
        res, exc = core.call(validate, R, w)
        if exc:
            continue
        e = {"w": enc.enc(w), "r": not res.has_errors(), "gen": is_gen}
        if (e["r"] or op != "subst5") and e not in ev["ws"]:
            ev["ws"].append(e)
    if idem:
        R2, exc = core.call(lambda: substitute(R, v))
        if exc:
            ev["idem"] = exc
        else:
            eq, exc = core.call(lambda: (R2 == R) and not (R2 != R))
            ev["idem"] = exc or ("equal" if eq else "different")
    return [ev]


def describe(case, ev):
    return "%s %% %s : %s idem=%s gen=%s/%s rv=%s -> %s ws=%s" % (
        show(case["s"]), repr(enc.dec(ev["v"]))[:300], ev["outcome"], ev["idem"], ev["genexc"], ev["genbad"],
        ev["rv"], show(ev["rs"])[:400], [(repr(enc.dec(x["w"]))[:150], x["r"]) for x in ev["ws"]][:8])
