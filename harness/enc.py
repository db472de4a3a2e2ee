"""Encoding of Python values and of real d42 schemas into the records the TLA+
specification talks about (spec/Values.tla, spec/Schemas.tla), and back."""
import datetime as dt
import math
import uuid
from decimal import Decimal
from fractions import Fraction

from niltype import Nil

B = 15
BASE = 1 << B


# ---------------------------------------------------------------- numbers
def num(x):
    """int, Fraction with power-of-two denominator, or finite float -> canonical Num."""
    if isinstance(x, float):
        n, d = x.as_integer_ratio()
    elif isinstance(x, Fraction):
        n, d = x.numerator, x.denominator
    else:
        n, d = int(x), 1
    if n == 0:
        return [0, 0, []]
    s = -1 if n < 0 else 1
    n = abs(n)
    k = d.bit_length() - 1
    bot = -((k + B - 1) // B)
    n <<= (-bot * B - k)
    digits = []
    while n:
        digits.append(n & (BASE - 1))
        n >>= B
    i = 0
    while digits[i] == 0:
        i += 1
    digits = digits[i:]
    bot += i
    return [s, bot + len(digits), digits[::-1]]


def unnum(n):
    s, top, d = n
    v = Fraction(0)
    for i, x in enumerate(d):
        v += Fraction(x) * Fraction(2) ** (B * (top - 1 - i))
    return s * v


def text(s):
    return [ord(c) for c in s]


def untext(t):
    return "".join(map(chr, t))


# ---------------------------------------------------------------- values
class Zoo:
    """Registry of objects that have no structural encoding; ids are stable names."""

    def __init__(self):
        self.by_id = {}
        self.ids = {}

    def add(self, name, obj):
        self.by_id[name] = obj
        self.ids[id(obj)] = name
        return obj

    def name(self, obj):
        n = self.ids.get(id(obj))
        if n is None:
            n = f"anon:{type(obj).__name__}:{len(self.ids)}"
            self.add(n, obj)
        return n


ZOO = Zoo()
FORCED = {}      # id -> name of built-in values that have no structural encoding

_EXACT = (bool, int, float, str, bytes, list, dict, tuple, uuid.UUID, dt.datetime, dt.date)


def _sub(rec, v, base):
    if type(v) is not base:
        rec["sub"] = type(v).__name__
    return rec


def enc(v):
    from d42.declaration.types import optional
    if v is None:
        return {"k": "none"}
    if v is ...:
        return {"k": "ell"}
    n = FORCED.get(id(v))
    if n is None and not isinstance(v, _EXACT):
        n = ZOO.ids.get(id(v))
    if n is not None:
        return {"k": "other", "cls": type(v).__name__, "id": n}
    if isinstance(v, bool):
        return {"k": "bool", "b": v}
    if isinstance(v, int):
        return _sub({"k": "int", "n": num(int(v))}, v, int)
    if isinstance(v, float):
        f = float(v)
        if math.isnan(f):
            r = {"k": "float", "c": "nan", "n": num(0)}
        elif math.isinf(f):
            r = {"k": "float", "c": "inf" if f > 0 else "-inf", "n": num(0)}
        else:
            r = {"k": "float", "c": "fin", "n": num(f)}
            if f == 0 and math.copysign(1, f) < 0:
                r["z"] = "-0"
        return _sub(r, v, float)
    if isinstance(v, str):
        return _sub({"k": "str", "t": [ord(c) for c in v]}, v, str)
    if isinstance(v, bytes):
        return _sub({"k": "bytes", "t": list(bytes(v))}, v, bytes)
    if isinstance(v, list):
        return _sub({"k": "list", "e": [enc(x) for x in list.__iter__(v)]}, v, list)
    if isinstance(v, dict):
        return _sub({"k": "dict", "p": [[enc(k), enc(x)] for k, x in dict.items(v)]}, v, dict)
    if isinstance(v, uuid.UUID):
        return _sub({"k": "uuid", "t": list(v.bytes), "ver": v.version or 0}, v, uuid.UUID)
    if isinstance(v, dt.datetime):
        u = v
        off = ""
        if v.utcoffset() is not None:
            off = str(int(v.utcoffset().total_seconds() * 1000000))
        year = v.year                           # the calendar repeats after 400 years
        if off:
            by = 400 if v.year < 5000 else -400
            u = dt.datetime(v.year + by, *v.timetuple()[1:6], v.microsecond) - v.utcoffset()
            year = u.year - by
        return _sub({"k": "datetime", "aw": v.utcoffset() is not None, "off": off, "t":
                     [year, u.month, u.day, u.hour, u.minute, u.second, u.microsecond]},
                    v, dt.datetime)
    if isinstance(v, dt.date):
        return _sub({"k": "date", "t": [v.year, v.month, v.day]}, v, dt.date)
    if isinstance(v, tuple):
        return _sub({"k": "tuple", "e": [enc(x) for x in v]}, v, tuple)
    if isinstance(v, optional):
        return {"k": "optional", "id": "optional", "key": enc(v.key)}
    return {"k": "other", "cls": type(v).__name__, "id": ZOO.name(v)}


def dec(r):
    from d42.declaration.types import optional
    k = r["k"]
    if r.get("sub"):
        base = SUBCLASSES[r["sub"]]
        if k == "int":
            return base(int(unnum(r["n"])))
        if k == "float":
            return base(dec({**r, "sub": None}))
        if k == "str":
            return base(untext(r["t"]))
        if k == "bytes":
            return base(bytes(r["t"]))
        if k == "list":
            return base([dec(x) for x in r["e"]])
        if k == "tuple":
            return base(*[dec(x) for x in r["e"]]) if hasattr(base, "_fields") \
                else base([dec(x) for x in r["e"]])
        if k == "dict":
            d = {dec(a): dec(b) for a, b in r["p"]}
            if r["sub"] == "defaultdict":
                return base(int, d)
            return base(d)
        if k == "uuid":
            return base(bytes=bytes(r["t"]))
        if k == "datetime":
            d = dec({**r, "sub": None})
            return base(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond,
                        tzinfo=d.tzinfo)
        if k == "date":
            return base(*r["t"])
    if k == "none":
        return None
    if k == "ell":
        return ...
    if k == "bool":
        return r["b"]
    if k == "int":
        return int(unnum(r["n"]))
    if k == "float":
        if r["c"] != "fin":
            return float(r["c"])
        if r.get("z"):
            return -0.0
        f = unnum(r["n"])
        return f.numerator / f.denominator
    if k == "str":
        return untext(r["t"])
    if k == "bytes":
        return bytes(r["t"])
    if k == "list":
        return [dec(x) for x in r["e"]]
    if k == "tuple":
        return tuple(dec(x) for x in r["e"])
    if k == "dict":
        return {dec(a): dec(b) for a, b in r["p"]}
    if k == "uuid":
        return uuid.UUID(bytes=bytes(r["t"]))
    if k == "datetime":
        if not r["aw"]:
            return dt.datetime(*r["t"])
        tz = dt.timezone(dt.timedelta(microseconds=int(r["off"])))
        by = 400 if r["t"][0] < 5000 else -400
        u = dt.datetime(r["t"][0] + by, *r["t"][1:], tzinfo=dt.timezone.utc).astimezone(tz)
        return u.replace(year=u.year - by)
    if k == "date":
        return dt.date(*r["t"])
    if k == "optional":
        return optional(dec(r["key"]))
    return ZOO.by_id[r["id"]]


SUBCLASSES = {}


def subclass(cls):
    SUBCLASSES[cls.__name__] = cls
    return cls


# ---------------------------------------------------------------- schemas
PATTERNS = {}      # pattern text -> regex tree
ELL = {"t": "ell"}


def _opt(x, f):
    return [] if x is Nil else [f(x)]


def proj(s):
    """Project a real schema object onto the abstract record."""
    from d42.declaration import types as T
    from d42.custom_type import CustomSchema
    if s is ...:
        return dict(ELL)
    try:
        p = s.props
        if isinstance(s, CustomSchema):
            return {"t": "custom", "name": type(s).__name__, "inner": proj(p.get("inner"))}
        if isinstance(s, T.NoneSchema):
            return {"t": "none"}
        if isinstance(s, T.BoolSchema):
            return {"t": "bool", "value": _opt(p.value, enc)}
        if isinstance(s, T.IntSchema):
            return {"t": "int", "value": _opt(p.value, enc), "min": _opt(p.min, enc),
                    "max": _opt(p.max, enc)}
        if isinstance(s, T.FloatSchema):
            return {"t": "float", "value": _opt(p.value, enc), "min": _opt(p.min, enc),
                    "max": _opt(p.max, enc), "prec": _opt(p.precision, int)}
        if isinstance(s, T.StrSchema):
            return {"t": "str", "value": _opt(p.value, enc), "len": _opt(p.len, _int),
                    "minlen": _opt(p.min_len, _int), "maxlen": _opt(p.max_len, _int),
                    "alphabet": _opt(p.alphabet, text), "substr": _opt(p.substr, text),
                    "pattern": _opt(p.pattern, _pattern)}
        if isinstance(s, T.ListSchema):
            return {"t": "list", "elems": _opt(p.elements, lambda es: [proj(e) for e in es]),
                    "type": _opt(p.type, proj), "len": _opt(p.len, _int),
                    "minlen": _opt(p.min_len, _int), "maxlen": _opt(p.max_len, _int)}
        if isinstance(s, T.DictSchema):
            return {"t": "dict", "keys": _opt(p.keys, lambda ks: [
                [enc(k), proj(v[0]), bool(v[1])] for k, v in ks.items()])}
        if isinstance(s, T.AnySchema):
            return {"t": "any", "types": _opt(p.types, lambda ts: [proj(x) for x in ts])}
        if isinstance(s, T.BytesSchema):
            return {"t": "bytes", "value": _opt(p.value, enc)}
        if isinstance(s, T.UUID4Schema):
            return {"t": "uuid4", "value": _opt(p.value, enc)}
        if isinstance(s, T.DateTimeSchema):
            return {"t": "datetime", "value": _opt(p.value, enc)}
        if isinstance(s, T.DateSchema):
            return {"t": "date", "value": _opt(p.value, enc)}
        if isinstance(s, T.GenericTypeAliasSchema):
            return {"t": "alias", "name": _opt(p.name, str), "type": proj(p.type)}
    except (AttributeError, TypeError, KeyError) as e:
        return {"t": "broken", "why": f"{type(e).__name__}: {e}"[:200]}
    return {"t": "broken", "why": type(s).__name__}


LIM = 1 << 30


def _int(n):
    """Lengths are TLC integers; saturate far outside any length in use."""
    n = int(n)
    return max(-LIM, min(LIM, n))


def _pattern(p):
    return {"p": p, "x": PATTERNS.get(p, {"r": "lit", "c": -1})}
