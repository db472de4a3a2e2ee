"""Seeded generators of abstract schemas, values and regex trees.  They only
choose inputs; every verdict is the specification's."""
import datetime as dt
import math
import string
import unicodedata
import uuid

from . import enc as E, mined


class GiveUp(Exception):
    pass


INTS = [0, 1, -1, 2, -2, 3, 5, 7, 9, 10, 11, 15, 16, 17, 31, 32, 33, 42, 99, 100, 127, 128, 255,
        256, 999, 1000, -7, -10, -100, 32767, 32768, -32768, 65535, 65536, 2**31 - 1, 2**31,
        -2**31, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 10**20,
        -10**20, 10**30 + 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 0.5, 0.25, 0.05, 0.15, 0.35, 1.5, 2.5, -2.5, 3.14,
          3.1415926, 10.0, 99.99, 100.0, -0.1, -99.95, 1e-3, 1e-7, 1e-9, 1e9, 123456.789, 1e15, 1e16,
          2.0**53, 2.0**63, -2.0**63, 1e20, -1e20, 1e300, -1e300, 1.7e308, -1.7e308, 5e-324, 1e-300,
          1.0 + 5e-10, 1.0 + 3e-9, 100.0 * (1 + 5e-10), 100.0 * (1 + 4e-9), 0.1 * (1 + 7e-9)]
STRS = ["", "a", "b", "ab", "abc", "banana", "Hello", "hello world", "0", "1", "12", "-1", "True",
        "None", "id", "name", "x" * 16, "y" * 31, "z" * 32, "w" * 33, "v" * 40, "\n", "a\nb", "\t",
        "'", '"', "'\"", "\\", "\\n", "é", "ß", "ж", "Ж", "日本", "😀", "\u0301", "\x00", "a.b",
        "[0]", "_", " ", "  a ", "...", "schema", "A", "B", "aA", "aaa", "aab", "abab"]
KEYS = ["id", "name", "a", "b", "c", "d", "items", "", "a.b", "with space", "é", "0", "x'y", 'x"y',
        "\n", "type", "value", "k" * 40]
ODD_KEYS = [0, 1, 2, -1, None, True, False, 1.5, (1, 2), ("a",), (), b"k", 10**20, (1, (2, "z")),
            dt.date(2020, 1, 2), uuid.UUID(int=0x12345678123442348234123456781234)]
UUIDS4 = [uuid.UUID("886313e1-3b8a-4372-9b90-0c9aee199e5d"), uuid.UUID(
    "00000000-0000-4000-8000-000000000000"), uuid.UUID("ffffffff-ffff-4fff-bfff-ffffffffffff"),
    uuid.UUID("886313e1-3b8a-4372-9b90-0c9aee199e5e")]
UUIDS_X = [uuid.UUID("886313e1-3b8a-5372-9b90-0c9aee199e5d"), uuid.UUID(int=0), uuid.UUID(
    "886313e1-3b8a-1372-9b90-0c9aee199e5d"), uuid.UUID("886313e1-3b8a-4372-1b90-0c9aee199e5d"),
    uuid.UUID("886313e1-3b8a-3372-9b90-0c9aee199e5d")]
TZ = dt.timezone(dt.timedelta(hours=3))
TZ2 = dt.timezone(dt.timedelta(hours=-5, minutes=-30))
DATETIMES = [dt.datetime(2020, 1, 2, 3, 4, 5), dt.datetime(2020, 1, 2), dt.datetime(2020, 1, 2, 3, 4, 5, 6),
             dt.datetime(1970, 1, 1), dt.datetime(9999, 12, 31, 23, 59, 59, 999999), dt.datetime(1, 1, 1),
             dt.datetime(2020, 1, 2, 3, 4, 5, tzinfo=dt.timezone.utc), dt.datetime(
                 2020, 1, 2, 6, 4, 5, tzinfo=TZ), dt.datetime(2020, 6, 1, 12, tzinfo=TZ2)]
DATES = [dt.date(2020, 1, 2), dt.date(2020, 1, 3), dt.date(1970, 1, 1), dt.date(1, 1, 1),
         dt.date(9999, 12, 31), dt.date(2020, 2, 29)]
BYTESS = [b"", b"a", b"ab", b"\x00\xff", b"banana", b"x" * 33]
ALPHABETS = ["ab", "abc", "a", string.digits, string.ascii_lowercase, "aé", "ж日", "01", " _-", "aab",
             string.ascii_letters + string.digits, "'\"\\", "\n\t ", "a-c", "+-z", "^ab", "]a[", ".*", "a|b", "\\d", "%-~",
             "A-Za-z_", "\\w+", "{}s", "$^", string.punctuation]


def S(t, **kw):
    base = {
        "none": {}, "bool": {"value": []}, "bytes": {"value": []}, "uuid4": {"value": []},
        "datetime": {"value": []}, "date": {"value": []},
        "int": {"value": [], "min": [], "max": []},
        "float": {"value": [], "min": [], "max": [], "prec": []},
        "str": {"value": [], "len": [], "minlen": [], "maxlen": [], "alphabet": [], "substr": [],
                "pattern": []},
        "list": {"elems": [], "type": [], "len": [], "minlen": [], "maxlen": []},
        "dict": {"keys": []}, "any": {"types": []},
        "alias": {"name": [], "type": None}, "custom": {"name": "C", "inner": None}, "ell": {},
    }[t]
    return {"t": t, **base, **kw}


class Gen:
    def __init__(self, rng, *, alias=True, custom=False, regex=True, nan=True, inf=True,
                 sat=False, odd_keys=True, any_=True, otherzoo=(), neg=0.0):
        self.r = rng
        self.alias, self.custom, self.regex = alias, custom, regex
        self.nan, self.inf, self.sat, self.odd_keys, self.any_ = nan, inf, sat, odd_keys, any_
        self.zoo = list(otherzoo)
        self.neg = neg         # how often a length that nothing has is declared
        self.namec = 0
        self.extra_keys = []

    # ------------------------------------------------------------ scalars
    def p(self, x):
        return self.r.random() < x

    def int_(self):
        c = self.r.random()
        if c < .06 and mined.INTS:
            return self.r.choice(mined.INTS)
        if c < .55:
            return self.r.choice(INTS)
        if c < .85:
            return self.r.randint(-20, 120)
        return self.r.randint(-2**70, 2**70)

    def float_(self):
        c = self.r.random()
        if c < .04 and mined.FLOATS:
            f = self.r.choice(mined.FLOATS)
        elif c < .5:
            f = self.r.choice(FLOATS)
        elif c < .75:
            f = round(self.r.uniform(-100, 100), self.r.randint(0, 6))
        elif c < .85:
            f = self.r.uniform(-10, 10)
        elif c < .9:
            f = math.ldexp(self.r.uniform(-1, 1), self.r.randint(-300, 1000))
        else:
            f = self.r.choice(([math.inf, -math.inf] if self.inf else [1.0]) +
                              ([math.nan] if self.nan else [2.0]))
        return f

    def str_(self):
        c = self.r.random()
        if c < .06 and mined.STRS:
            return self.r.choice(mined.STRS)
        if c < .6:
            return self.r.choice(STRS)
        n = self.r.choice([0, 1, 2, 3, 4, 5, 8, 12, 16, 17, 31, 32, 33, 34, 40, 50]) \
            if c > .9 else self.r.randint(0, 6)
        al = self.r.choice(["abc", "ab", string.ascii_letters, string.printable, "aé日😀\n'\"",
                            string.digits])
        return "".join(self.r.choice(al) for _ in range(n))

    def bytes_(self):
        if self.p(.7):
            return self.r.choice(BYTESS)
        return bytes(self.r.randrange(256) for _ in range(self.r.randint(0, 5)))

    def uuid_(self, any_version=False):
        if any_version and self.p(.3):
            return self.r.choice(UUIDS_X)
        if self.p(.7):
            return self.r.choice(UUIDS4)
        return uuid.UUID(int=self.r.getrandbits(128), version=4)

    def datetime_(self):
        if self.p(.7):
            return self.r.choice(DATETIMES)
        return dt.datetime(self.r.randint(1, 9999), self.r.randint(1, 12), self.r.randint(1, 28),
                           self.r.randint(0, 23), self.r.randint(0, 59), self.r.randint(0, 59),
                           self.r.choice([0, 1, 999999]))

    def date_(self):
        if self.p(.7):
            return self.r.choice(DATES)
        return dt.date(self.r.randint(1, 9999), self.r.randint(1, 12), self.r.randint(1, 28))

    def key_(self):
        if self.odd_keys and self.p(.12):
            return self.r.choice(ODD_KEYS + self.extra_keys)
        if self.p(.05):
            return self.str_()
        return self.r.choice(KEYS)

    # ------------------------------------------------------------ values
    def scalar(self):
        f = self.r.choice([lambda: None, lambda: self.r.choice([True, False]), self.int_, self.int_,
                           self.float_, self.str_, self.str_, self.bytes_,
                           lambda: self.uuid_(True), self.datetime_, self.date_])
        return f()

    def plain_scalar(self):
        f = self.r.choice([lambda: None, lambda: self.r.choice([True, False]), self.int_, self.int_,
                           self.float_, self.str_, self.str_, self.bytes_, self.uuid_,
                           self.datetime_, self.date_])
        return f()

    def value(self, depth=2, plain=False):
        c = self.r.random()
        if depth <= 0 or c < .5:
            return self.plain_scalar() if plain else self.scalar()
        n = self.r.choice([0, 1, 1, 2, 2, 3, 4]) if self.p(.97) else self.r.randint(5, 18)
        if c < .75:
            if self.p(.15):
                return self.alike(self.value(depth - 1, plain), self.r.choice([2, 3, 3, 4, 5]))
            return [self.value(depth - 1, plain) for _ in range(n)]
        if plain or c < .95:
            return {self.key_(): self.value(depth - 1, plain) for _ in range(n)}
        if c < .97:
            return tuple(self.value(depth - 1) for _ in range(n))
        return self.hostile()

    def hostile(self):
        return self.r.choice(self.zoo) if self.zoo else self.scalar()

    # ------------------------------------------------------------ schemas
    def length(self):
        return self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 16, 17, 20]) if self.p(.95) \
            else self.r.choice([31, 32, 33, 36, 40] + mined.LENS)

    def lens(self, n=None):
        """kwargs for one declared len form; n: a length that has to fit."""
        f = self.r.choice(["len", "min", "max", "both"])
        if self.neg and self.p(self.neg):
            a = self.r.choice([-1, -2, -3, -1, -100, -2**20])
            return self.r.choice([{"len": [a]}, {"maxlen": [a]}, {"minlen": [a]},
                                  {"minlen": [a], "maxlen": [self.r.choice([a, 0, 3])]}])
        if n is None:
            a, b = sorted((self.length(), self.length()))
            n = self.r.randint(a, b)
        else:
            a = max(0, n - self.r.choice([0, 0, 1, 2, 5]))
            b = n + self.r.choice([0, 0, 1, 2, 5])
        if f == "len":
            return {"len": [n]}
        if f == "min":
            return {"minlen": [a]}
        if f == "max":
            return {"maxlen": [b]}
        return {"minlen": [a], "maxlen": [b]}

    def s_int(self):
        s = S("int")
        c = self.r.random()
        if c < .25:
            v = self.int_()
            if self.p(.05):
                v = self.r.choice([True, False])
            s["value"] = [E.enc(v)]
            if self.p(.3):
                s["min"] = [E.enc(v - self.r.choice([0, 1, 5, 2**63]))]
            if self.p(.3):
                s["max"] = [E.enc(v + self.r.choice([0, 1, 5, 2**63]))]
        elif c < .8:
            a, b = sorted((self.int_(), self.int_()))
            if self.p(.3):
                b = a + self.r.choice([0, 1, 2])
            if self.p(.65):
                s["min"] = [E.enc(a)]
            if self.p(.65):
                s["max"] = [E.enc(b)]
        return s

    def s_float(self):
        s = S("float")
        c = self.r.random()
        if c < .35:
            v = self.float_()
            s["value"] = [E.enc(v)]
            if not math.isnan(v):
                if self.p(.25):
                    s["min"] = [E.enc(self.r.choice([v, v - 1.0, v - abs(v) * 1e-10]))]
                if self.p(.25):
                    s["max"] = [E.enc(self.r.choice([v, v + 1.0, v + abs(v) * 1e-10]))]
        elif c < .85:
            while True:
                a, b = self.float_(), self.float_()
                if not (math.isnan(a) or math.isnan(b)):
                    break
            a, b = min(a, b), max(a, b)
            if self.p(.3):
                b = a + self.r.choice([0.0, 0.01, 0.04, 0.1, 0.25, 1.0])
            if b == -math.inf or a == math.inf:
                a, b = -1.0, 1.0
            if self.p(.65):
                s["min"] = [E.enc(a)]
            if self.p(.65):
                s["max"] = [E.enc(b)]
        if self.p(.35):
            s["prec"] = [self.r.choice([1, 1, 2, 2, 3, 4, 7, 10, 14, 15])]
        return s

    def s_str(self):
        s = S("str")
        c = self.r.random()
        if c < .25:
            v = self.str_()
            s["value"] = [E.enc(v)]
            if self.p(.25):
                s.update(self.lens(len(v)))
            if self.p(.2):
                s["alphabet"] = [E.text("".join(dict.fromkeys(v)) + self.r.choice(["", "a", "xyz"]))]
            if self.p(.2):
                i = self.r.randint(0, len(v))
                j = self.r.randint(i, len(v))
                s["substr"] = [E.text(v[i:j])]
        elif c < .45 and self.regex:
            x = self.regex_tree(self.r.choice([1, 2, 2, 3]), validate=not self.sat)
            s["pattern"] = [pattern(x)]
        elif c < .9:
            al = None
            if self.p(.4):
                al = self.r.choice(ALPHABETS)
                s["alphabet"] = [E.text(al)]
            sub = None
            if self.p(.35):
                if al is not None and (self.sat or self.p(.8)):
                    sub = "".join(self.r.choice(al) for _ in range(self.r.randint(0, 4)))
                else:
                    sub = self.r.choice(STRS)
                s["substr"] = [E.text(sub)]
            if self.p(.6):
                if sub is not None and (self.sat or self.p(.8)):
                    s.update(self.lens(len(sub) + self.r.choice([0, 0, 1, 3, 10, 35])))
                else:
                    s.update(self.lens())
        return s

    def s_list(self, depth):
        s = S("list")
        c = self.r.random()
        if c < .1:
            if self.p(.6):
                s.update(self.lens())
        elif c < .4:
            s["type"] = [self.schema(depth - 1)]
            if self.p(.6):
                s.update(self.lens() if self.p(.3) else self.lens(self.r.randint(0, 4)))
        else:
            n = self.r.choice([0, 1, 1, 2, 2, 3, 4]) if self.p(.97) else self.r.randint(5, 13)
            es = [self.schema(depth - 1) for _ in range(n)]
            form = self.r.choice(["exact", "head", "tail", "contains", "exact", "head"])
            if form == "head":
                es = es + [dict(E.ELL)]
            elif form == "tail":
                es = [dict(E.ELL)] + es
            elif form == "contains":
                es = [dict(E.ELL)] + es + [dict(E.ELL)] if n else [dict(E.ELL)]
            s["elems"] = [es]
            if self.p(.35):
                # len forms the declaration accepts (it refuses min > concrete)
                k = len([e for e in es if e["t"] != "ell"])
                f = self.r.choice(["len", "min", "max", "both"])
                extra = self.r.choice([0, 0, 1, 2, 5]) if len(es) != k else 0
                if f == "len":
                    s["len"] = [k + extra]
                else:
                    if f in ("min", "both"):
                        s["minlen"] = [max(0, k - self.r.choice([0, 0, 1, 2]))]
                    if f in ("max", "both"):
                        s["maxlen"] = [k + self.r.choice([0, 0, 1, 2, 5])]
        return s

    def s_dict(self, depth, declared=None):
        s = S("dict")
        c = self.r.random()
        if c < .08 and not declared:
            return s
        n = self.r.choice([0, 1, 1, 2, 2, 3, 3, 4]) if self.p(.97) else self.r.randint(5, 14)
        keys = []
        for _ in range(n):
            k = self.key_()
            if any(k == q for q in keys):
                continue
            keys.append(k)
        items = [[E.enc(k), self.schema(depth - 1), self.p(.35)] for k in keys]
        if self.p(.35):
            items.insert(self.r.randint(0, len(items)), [{"k": "ell"}, dict(E.ELL), False])
        s["keys"] = [items]
        return s

    def s_any(self, depth):
        s = S("any")
        if self.p(.12):
            return s
        n = self.r.choice([1, 2, 2, 3, 4]) if self.p(.98) else self.r.randint(5, 11)
        ts = []
        for _ in range(n):
            x = self.like(self.r.choice(ts), depth - 1) if ts and self.p(.2) else self.schema(depth - 1)
            # declaration flattens unions, so a declared union never nests another
            ts.extend(x["types"][0] if x["t"] == "any" and x["types"] else [x])
        s["types"] = [ts]
        return s

    def like(self, s, depth):
        """A schema of the shape of s with other leaves."""
        if s["t"] == "list" and s["elems"] and self.p(.8):
            return dict(s, elems=[[e if e["t"] == "ell" or self.p(.3) else self.like(e, depth - 1)
                                   for e in s["elems"][0]]])
        if s["t"] == "list" and s["type"] and self.p(.8):
            return dict(s, type=[self.like(s["type"][0], depth - 1)])
        if s["t"] == "dict" and s["keys"] and self.p(.8):
            items = [[k, x if x["t"] == "ell" or self.p(.3) else self.like(x, depth - 1),
                      o if x["t"] == "ell" or self.p(.8) else not o] for k, x, o in s["keys"][0]]
            if items and self.p(.2):
                items.pop(self.r.randrange(len(items)))
            return dict(s, keys=[items])
        if s["t"] in ("int", "float", "str", "bool", "bytes", "date") and self.p(.6):
            for _ in range(20):
                x = self.schema(0)
                if x["t"] == s["t"]:
                    return x
        return self.schema(max(0, depth))

    def deep(self, s, n):
        """s under n containers."""
        for _ in range(n):
            c = self.r.randrange(6 if self.any_ else 5)
            if c < 2:
                s = S("dict", keys=[[[E.enc(self.key_()), s, self.p(.3)]] + (
                    [[{"k": "ell"}, dict(E.ELL), False]] if self.p(.2) else [])])
            elif c == 2:
                s = S("list", type=[s])
            elif c in (3, 4):
                es = [s]
                es += [dict(E.ELL)] * self.p(.3)
                es[:0] = [dict(E.ELL)] * self.p(.3)
                s = S("list", elems=[es])
            elif s["t"] != "any":
                s = S("any", types=[[s, S("none")]])
        return s

    def schema(self, depth=2):
        if depth >= 2 and self.p(.015):
            return self.deep(self.schema(self.r.choice([0, 0, 1])), self.r.randint(3, 6))
        kinds = ["none", "bool", "int", "int", "float", "float", "str", "str", "bytes", "uuid4",
                 "datetime", "date"]
        if depth > 0:
            kinds = kinds[:] + ["list"] * 7 + ["dict"] * 7
            if self.any_:
                kinds += ["any"] * 4
            if self.alias:
                kinds += ["alias"]
            if self.custom:
                kinds += ["custom"] * 3
        t = self.r.choice(kinds)
        if t == "none":
            return S("none")
        if t == "int":
            return self.s_int()
        if t == "float":
            return self.s_float()
        if t == "str":
            return self.s_str()
        if t == "list":
            return self.s_list(depth)
        if t == "dict":
            return self.s_dict(depth)
        if t == "any":
            return self.s_any(depth)
        if t == "alias":
            self.namec += 1
            return S("alias", name=["Alias%d" % (self.namec % 5)], type=self.schema(depth - 1))
        if t == "custom":
            return S("custom", name="C", inner=self.schema(depth - 1))
        s = S(t)
        if self.p(.45):
            v = {"bool": lambda: self.p(.5), "bytes": self.bytes_, "uuid4": self.uuid_,
                 "datetime": self.datetime_, "date": self.date_}[t]()
            if t == "date" and self.p(.1):
                v = self.datetime_()
            s["value"] = [E.enc(v)]
        return s

    # ------------------------------------------------------- conforming values
    def conf(self, s):
        """A value intended to conform (boundary-biased); raises GiveUp if hard."""
        t = s["t"]
        if t == "none":
            return None
        if t in ("bool", "bytes", "uuid4", "datetime", "date", "int", "float", "str") and s["value"]:
            v = E.dec(s["value"][0])
            if t == "float" and self.p(.15) and math.isfinite(v):
                return v * (1 + self.r.choice([5e-10, -5e-10, 1e-12]))
            return v
        if t == "bool":
            return self.p(.5)
        if t == "bytes":
            return self.bytes_()
        if t == "uuid4":
            return self.uuid_()
        if t == "datetime":
            return self.datetime_()
        if t == "date":
            return self.date_() if self.p(.9) else self.datetime_()
        if t == "int":
            lo = E.dec(s["min"][0]) if s["min"] else None
            hi = E.dec(s["max"][0]) if s["max"] else None
            if lo is None and hi is None:
                return self.int_()
            c = self.r.random()
            if lo is not None and (hi is None or c < .4):
                v = lo + self.r.choice([0, 0, 1, 2, 2**40])
                return v if hi is None else min(v, hi)
            if hi is not None and (lo is None or c < .8):
                v = hi - self.r.choice([0, 0, 1, 2, 2**40])
                return v if lo is None else max(v, lo)
            if lo > hi:
                raise GiveUp
            return self.r.randint(lo, hi)
        if t == "float":
            lo = E.dec(s["min"][0]) if s["min"] else None
            hi = E.dec(s["max"][0]) if s["max"] else None
            if lo is None and hi is None:
                return self.float_()
            c = self.r.random()
            if lo is not None and (hi is None or c < .5):
                v = self.r.choice([lo, math.nextafter(lo, math.inf), lo + 1.0, lo + abs(lo) / 2])
                return v if hi is None else min(v, hi)
            v = self.r.choice([hi, math.nextafter(hi, -math.inf), hi - 1.0, hi - abs(hi) / 2])
            return v if lo is None else max(v, lo)
        if t == "str":
            if s["pattern"]:
                return self.regex_conf(s["pattern"][0]["x"])
            sub = E.untext(s["substr"][0]) if s["substr"] else ""
            al = E.untext(s["alphabet"][0]) if s["alphabet"] else self.r.choice(
                ["abc", string.ascii_letters, "aé日😀\n'\"", string.digits])
            n = self.conf_len(s, len(sub))
            if n > 200:
                raise GiveUp
            k = n - len(sub)
            if k > 0 and not al:
                raise GiveUp
            fill = "".join(self.r.choice(al) for _ in range(max(0, k)))
            i = self.r.randint(0, len(fill))
            return fill[:i] + sub + fill[i:]
        if t == "list":
            if s["elems"]:
                es = s["elems"][0]
                cs = [e for e in es if e["t"] != "ell"]
                vals = [self.conf(e) for e in cs]
                if len(cs) == len(es):
                    return vals
                n = self.conf_len(s, len(cs), spread=3)
                extra = max(0, n - len(cs))
                pad = [self.value(1) if self.p(.6) or not cs else self.conf(self.r.choice(cs))
                       for _ in range(extra)]
                first, last = es[0]["t"] == "ell", es[-1]["t"] == "ell"
                if len(es) == 1:
                    return pad
                if first and last:
                    i = self.r.randint(0, extra)
                    return pad[:i] + vals + pad[i:]
                return pad + vals if first else vals + pad
            n = self.conf_len(s, 0, spread=4)
            if n > 60:
                raise GiveUp
            if s["type"]:
                if n and self.p(.1):
                    x = self.conf(s["type"][0])
                    out = [x] * n if self.p(.4) else self.alike(x, n)
                else:
                    out = [self.conf(s["type"][0]) for _ in range(n)]
            else:
                out = [self.value(1) for _ in range(n)]
            return self.twins(out) if self.p(.12) else out
        if t == "dict":
            if not s["keys"]:
                return {self.key_(): self.value(1) for _ in range(self.r.randint(0, 3))}
            out = {}
            items = list(s["keys"][0])
            if self.p(.4):
                self.r.shuffle(items)
            for k, sub, opt in items:
                if k["k"] == "ell":
                    for _ in range(self.r.choice([0, 0, 1, 2])):
                        kk = self.key_()
                        if not any(E.dec(q[0]) == kk for q in items if q[0]["k"] != "ell"):
                            out[kk] = self.value(1)
                    continue
                if opt and self.p(.5):
                    continue
                try:
                    out[E.dec(k)] = self.conf(sub)
                except GiveUp:
                    if not opt:
                        raise
            return out
        if t == "any":
            if not s["types"]:
                return self.value(2)
            ts = list(s["types"][0])
            self.r.shuffle(ts)
            for x in ts:
                try:
                    return self.conf(x)
                except GiveUp:
                    pass
            raise GiveUp
        if t == "alias":
            return self.conf(s["type"])
        if t == "custom":
            return self.conf(s["inner"])
        raise GiveUp

    def conf_len(self, s, least, spread=6):
        if s["len"]:
            return s["len"][0]
        lo = max(least, s["minlen"][0] if s["minlen"] else 0)
        if s["maxlen"]:
            hi = s["maxlen"][0]
            if hi < lo:
                raise GiveUp
            return self.r.choice([lo, hi, self.r.randint(lo, hi)])
        if self.p(.025):
            return lo + self.r.choice([7, 9, 12, 16, 17, 20, 33] + [i for i in mined.LENS if i <= 40])
        return lo + self.r.choice([0, 0, 1, self.r.randint(0, spread)])

    def twin(self, v):
        """A value equal to v, or printed like it, but of another kind."""
        if isinstance(v, (bool, int)) and abs(v) < 2**53:
            return self.r.choice([float(v), bool(v) if v in (0, 1) else float(v), int(v)])
        if isinstance(v, float) and v == v and abs(v) < 2**53 and v == int(v):
            return self.r.choice([int(v), -v if v == 0 else int(v), bool(v) if v in (0, 1) else int(v)])
        if isinstance(v, dt.datetime):
            return v.date() if self.p(.5) else v.replace(tzinfo=None if v.tzinfo else dt.timezone.utc)
        if isinstance(v, list):
            return [self.twin(x) if self.p(.5) else x for x in v]
        if isinstance(v, dict):
            return {k: self.twin(x) if self.p(.5) else x for k, x in v.items()}
        return v

    def alike(self, v, n):
        """n members that are equal, or print alike, but need not be of one kind."""
        return [v] + [self.r.choice([v, self.twin(v), self.twin(v)]) for _ in range(n - 1)]

    def twins(self, v):
        """v with some elements repeated, as the same object, a copy or a twin."""
        if len(v) == 0:
            return v
        out = list(v)
        for _ in range(self.r.choice([1, 1, 2])):
            i, j = self.r.randrange(len(out)), self.r.randrange(len(out) + 1)
            x = self.r.choice([out[i], self.twin(out[i]), self.twin(out[i])])
            if len(out) > 1 and self.p(.5):
                out[j % len(out)] = x
            else:
                out.insert(j, x)
        return out

    # ------------------------------------------------------------ perturbation
    def positions(self, v, path=()):
        yield path
        if type(v) is list:
            for i, x in enumerate(v):
                yield from self.positions(x, path + (("i", i),))
        elif type(v) is dict:
            for k, x in v.items():
                yield from self.positions(x, path + (("k", k),))

    def at(self, v, path, f):
        if not path:
            return f(v)
        (kind, k), rest = path[0], path[1:]
        if kind == "i":
            return [self.at(x, rest, f) if i == k else x for i, x in enumerate(v)]
        return {q: (self.at(x, rest, f) if q is k or (q == k and type(q) is type(k)) else x)
                for q, x in v.items()}

    def perturb(self, v, hostile=False):
        ps = list(self.positions(v))
        return self.at(v, self.r.choice(ps), self.hostile_at if hostile else self.step)

    def hostile_at(self, v):
        return self.hostile()

    def restyle(self, v):
        """A text that is 'the same' under some reading of it."""
        f = self.r.choice([
            lambda: " " + v, lambda: v + " ", lambda: v + "\n", lambda: " " + v + "  ", lambda: "\t" + v,
            v.strip, v.lower, v.upper, v.casefold, v.title, lambda: unicodedata.normalize("NFD", v),
            lambda: unicodedata.normalize("NFKC", v), lambda: v + "\0", lambda: v + "\u200b",
            lambda: "\ufeff" + v, lambda: v.replace(" ", ""), lambda: v.replace("\n", " "),
            lambda: v.replace("e", "\u0435"), lambda: "0" + v, lambda: v + ".0", lambda: repr(v),
            lambda: v.translate({48 + i: 0xff10 + i for i in range(10)}), lambda: v * 2])
        return f()

    def near_letter(self, v):
        """A letter next to, or between, the letters of a text."""
        a = ord(self.r.choice(v or "a"))
        b = ord(self.r.choice(v or "a"))
        x = self.r.choice([a + 1, a - 1, a ^ 32, (a + b) // 2, self.r.randint(min(a, b), max(a, b)), 45, 94, 93, 92])
        return chr(x) if 0 <= x < 0x110000 and not 0xd800 <= x < 0xe000 else "a"

    def step(self, v):
        """One local change."""
        c = self.r.random()
        if c < .12:
            return self.value(1)
        if v is None:
            return self.r.choice([False, 0, "", [], {}, "None"])
        if isinstance(v, bool):
            return self.r.choice([not v, int(v), float(v), str(v), None, not v])
        if isinstance(v, int):
            return self.r.choice([v + 1, v - 1, v + 1, v - 1, -v, float(v) if abs(v) < 2**60 else v + 2,
                                  str(v) if abs(v) < 10**50 else "1", v == 1, v * 2 + 1, v + 2**63])
        if isinstance(v, float):
            if not math.isfinite(v):
                return self.r.choice([0.0, -v, math.nan, math.inf, 1e308, None, 0])
            return self.r.choice([math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v + 1.0,
                                  v - 1.0, -v, v * (1 + 5e-10), v * (1 - 5e-10), v * (1 + 4e-9),
                                  v + 0.01, v - 0.01, v + 0.1, round(v, 1), int(v), str(v),
                                  math.inf, math.nan, v * 2])
        if isinstance(v, str):
            i = self.r.randint(0, len(v))
            return self.r.choice([v + "a", "a" + v, v[:-1], v[1:], v[:i] + self.r.choice(
                ["x", "é", "\n", " ", "0", "Z", "a", "b"]) + v[i:], v[:i] + v[i + 1:], v.upper(),
                v.swapcase(), v[::-1], v + v, v.encode("utf8", "replace"), [v], list(v)[:6],
                v[:i] + self.r.choice("abz0_\n") + v[i + 1:], None, self.restyle(v), self.restyle(v),
                v[:i] + self.near_letter(v) + v[i + 1:], v[:i] + self.near_letter(v) + v[i:]])
        if isinstance(v, bytes):
            return self.r.choice([v + b"a", v[:-1], b"a" + v, v.decode("latin1"), bytearray(v)
                                  if self.zoo else v + b"z", None, v[::-1]])
        if isinstance(v, uuid.UUID):
            return self.r.choice([str(v), uuid.UUID(int=v.int ^ 1), uuid.UUID(int=v.int ^ (1 << 127)),
                                  self.r.choice(UUIDS_X), v.hex, v.int])
        if isinstance(v, dt.datetime):
            try:
                w = v + dt.timedelta(microseconds=self.r.choice([1, -1, 1000000]))
            except OverflowError:
                w = dt.datetime(2000, 1, 1)
            return self.r.choice([w, v.date(), v.replace(tzinfo=None) if v.tzinfo else v.replace(
                tzinfo=dt.timezone.utc), v.isoformat(), dt.datetime(2021, 5, 5), v.replace(microsecond=7)])
        if isinstance(v, dt.date):
            return self.r.choice([dt.datetime(v.year, v.month, v.day), dt.date(2000, 1, 1),
                                  v.isoformat(), v.replace(day=v.day % 28 + 1)])
        if isinstance(v, list):
            i = self.r.randint(0, len(v))
            ops = [v + [self.value(1)], [self.value(1)] + v, v[:-1], v[1:], v[:i] + v[i + 1:],
                   v[:i] + [self.value(1)] + v[i:], v[::-1], v + v[-1:], v[:1] + v, tuple(v), None,
                   {j: x for j, x in enumerate(v)}, v + v, [], self.twins(v)]
            if v:
                j = self.r.randrange(len(v))
                ops += [v[:j] + [self.twin(v[j])] + v[j + 1:], v + [self.twin(v[j])]]
            if len(v) > 1:
                j = self.r.randrange(len(v) - 1)
                ops += [v[:j] + [v[j + 1], v[j]] + v[j + 2:]] * 2
            return self.r.choice(ops)
        if isinstance(v, dict):
            ks = list(v)
            ops = [{**v, self.key_(): self.value(1)}] * 3
            ops += [list(v.items()), None, [], {}, {**v, 1: 2}]
            if ks:
                k = self.r.choice(ks)
                ops += [{q: x for q, x in v.items() if q is not k}] * 3
                k2 = self.key_()
                ops += [{(k2 if q is k else q): x for q, x in v.items()}]
                ops += [dict(reversed(list(v.items())))]
                if isinstance(k, str):
                    ops += [{(k + "x" if q is k else q): x for q, x in v.items()}]
                ops += [{**v, k: None}]
            return self.r.choice(ops)
        return self.value(1)

    # ------------------------------------------------------------ regex
    def regex_tree(self, depth, validate=False, unsupported=False, ends=True):
        """A tree; with anchors only at the ends."""
        x = self.rx(depth, validate)
        if validate and self.p(.25):
            x = self.zero_width(x)
        if unsupported:
            x = self.inject(x)
        if ends and self.p(.25):
            xs = [x]
            if self.p(.6):
                xs.insert(0, {"r": "at", "a": self.r.choice(["bol", "bol", "A"])})
            if self.p(.6):
                xs.append({"r": "at", "a": self.r.choice(["eol", "eol", "Z"])})
            x = {"r": "seq", "xs": xs}
        return x

    def lit(self):
        return self.r.choice([ord(c) for c in "abcxyz019 _-.*+?()[]{}|^$\\/'\"#&~"] + [
            10, 9, 233, 1078, 128512, 0] + [ord("a"), ord("b")] * 6)

    def cls_items(self, validate):
        items = []
        for _ in range(self.r.choice([1, 1, 2, 3])):
            c = self.r.random()
            if c < .45:
                items.append({"i": "c", "c": self.lit()})
            elif c < .75:
                lo, hi = self.r.choice([("a", "z"), ("a", "c"), ("0", "9"), ("A", "Z"), (" ", "~"),
                                        ("x", "x"), ("!", "/"), ("b", "y"), ("é", "ж"), ("0", "z")])
                if (lo, hi) == (" ", "~") and not self.p(.1):
                    lo, hi = "a", "f"
                items.append({"i": "r", "lo": ord(lo), "hi": ord(hi)})
            else:
                items.append({"i": "k", "k": self.r.choice("dwsDWS" if validate else "dw")})
        return items

    def rx(self, depth, validate, inrep=0):
        """inrep > 0 below a repetition: repetitions stay small there, or matching
        (Python's, not ours) takes exponential time."""
        c = self.r.random()
        if depth <= 0 or c < .2:
            c = self.r.random()
            if c < .5:
                return {"r": "lit", "c": self.lit()}
            if c < .62:
                return {"r": "any"}
            if c < .76:
                return {"r": "cat", "k": self.r.choice("dwdwsDWS" if validate else "dw")}
            return {"r": "set", "neg": self.p(.4), "items": self.cls_items(validate)}
        if c < .5:
            return {"r": "seq", "xs": [self.rx(depth - 1, validate, inrep)
                                       for _ in range(self.r.choice([0, 1, 2, 2, 3, 4]))]}
        if c < .65:
            return {"r": "alt", "xs": [self.rx(depth - 1, validate, inrep)
                                       for _ in range(self.r.choice([2, 2, 3]))]}
        if c < .82:
            if inrep:
                lo = self.r.choice([0, 0, 1, 2])
                hi = lo + 1 if lo < 2 else lo
            else:
                lo = self.r.choice([0, 0, 1, 1, 2, 3])
                hi = self.r.choice([-1, -1, lo, lo + 1, lo + 3])
                if self.p(.04):
                    lo = self.r.choice([31, 33, 40])
                    hi = self.r.choice([-1, lo, lo + 2, 44 if lo <= 44 else lo])
                if depth > 2 and (lo > 3 or hi > 8):
                    lo, hi = 0, 2
            if hi == 0 and lo == 0:
                hi = 1
            if inrep and depth < 2 and lo != hi:
                lo = hi
            return {"r": "rep", "lo": lo, "hi": hi, "q": self.r.choice(["greedy", "greedy", "lazy"]),
                    "x": self.rx(depth - 1, validate, inrep + 1)}
        return {"r": "grp", "g": self.r.choice(["cap", "non", "named"]),
                "x": self.rx(depth - 1, validate, inrep)}

    def zero_width(self, x):
        """Anchors, boundaries and lookarounds anywhere (for patterns that only match)."""
        def at():
            return {"r": "at", "a": self.r.choice(["bol", "bol", "A", "eol", "eol", "Z", "b", "B"])}

        def mk(y):
            c = self.r.random()
            if c < .35:
                return {"r": "seq", "xs": [at(), y]}
            if c < .6:
                return {"r": "seq", "xs": [y, at()]}
            if c < .7:
                return {"r": "alt", "xs": self.r.choice([[y, at()], [at(), y]])}
            if c < .85:
                return {"r": "seq", "xs": [{"r": "look", "a": ">", "neg": self.p(.4),
                                            "x": self.rx(1, True, 1)}, y]}
            k = {"r": "set", "neg": self.p(.4), "items": self.cls_items(True)}
            return {"r": "seq", "xs": [y, {"r": "look", "a": "<", "neg": self.p(.4), "x": k}]}
        if x["r"] == "alt" and self.p(.7):
            i = self.r.randrange(len(x["xs"]))
            return dict(x, xs=[mk(y) if j == i else y for j, y in enumerate(x["xs"])])
        if self.p(.3):
            return {"r": "alt", "xs": [mk(x), self.rx(1, True)]}
        return self.embed(x, mk)

    def inject(self, x):
        """Embed one construct the generator does not support somewhere in x."""
        def mk(y):
            c = self.r.randrange(8)
            if c == 0:
                return {"r": "seq", "xs": [{"r": "look", "a": ">", "neg": self.p(.5), "x": self.rx(1, False)}, y]}
            if c == 1:
                return {"r": "seq", "xs": [{"r": "look", "a": "<", "neg": self.p(.5), "x": {
                    "r": "lit", "c": 97}}, y]}
            if c == 2:
                return {"r": "seq", "xs": [{"r": "grp", "g": "cap", "x": {"r": "lit", "c": 97}},
                                           {"r": "ref", "n": 0}, y]}
            if c in (3, 4):
                return {"r": "seq", "xs": [y, {"r": "cat", "k": self.r.choice("sSDW")}]}
            if c == 5:
                return {"r": "grp", "g": "atomic", "x": y}
            if c == 6:
                return {"r": "rep", "lo": self.r.choice([0, 1]), "hi": self.r.choice([-1, 2]),
                        "q": "poss", "x": y}
            return {"r": "seq", "xs": [{"r": "set", "neg": self.p(.5), "items": [
                {"i": "k", "k": self.r.choice("sSDW")}]}, y]}
        return self.embed(x, mk)

    def embed(self, x, mk):
        """x with mk applied to one of its nodes."""
        subs = []

        def walk(y, put):
            subs.append((y, put))
            if y["r"] in ("seq", "alt"):
                for i, z in enumerate(y["xs"]):
                    walk(z, lambda n, y=y, i=i: y["xs"].__setitem__(i, n))
            elif y["r"] in ("rep", "grp"):
                walk(y["x"], lambda n, y=y: y.__setitem__("x", n))
        root = {"r": "seq", "xs": [x]}
        walk(x, lambda n: root["xs"].__setitem__(0, n))
        y, put = self.r.choice(subs)
        put(mk(y))
        return root["xs"][0]

    def regex_conf(self, x):
        pre = self.r.choice(["", "", "", "a", "\n", "zz"])
        post = self.r.choice(["", "", "", "a", "\n", "zz"])
        try:
            return pre + "".join(map(chr, self.rgen(x))) + post
        except ValueError:           # a pattern whose tree is not known
            raise GiveUp()

    def rchar(self, ok):
        for _ in range(60):
            c = self.r.choice([self.lit(), self.r.randint(32, 126), self.r.choice([32, 9, 48, 57, 95, 65])])
            if ok(c):
                return [c]
        raise GiveUp

    def rgen(self, x):
        r = x["r"]
        if r == "lit":
            return [x["c"]]
        if r == "any":
            return self.rchar(lambda c: c != 10)
        if r == "cat":
            return self.rchar(lambda c: incat(c, x["k"]))
        if r == "set":
            return self.rchar(lambda c: any(initem(c, i) for i in x["items"]) != x["neg"])
        if r == "seq":
            return [c for y in x["xs"] for c in self.rgen(y)]
        if r == "alt":
            return self.rgen(self.r.choice(x["xs"]))
        if r == "grp":
            return self.rgen(x["x"])
        if r == "rep":
            hi = x["hi"] if x["hi"] >= 0 else x["lo"] + 3
            n = self.r.choice([x["lo"], hi, self.r.randint(x["lo"], hi)])
            return [c for _ in range(n) for c in self.rgen(x["x"])]
        return []


def incat(c, k):
    ch = chr(c)
    return {"d": ch.isdecimal(), "D": not ch.isdecimal(), "s": ch.isspace(), "S": not ch.isspace(),
            "w": ch.isalnum() or ch == "_", "W": not (ch.isalnum() or ch == "_")}[k]


def initem(c, it):
    return it["c"] == c if it["i"] == "c" else it["lo"] <= c <= it["hi"] if it["i"] == "r" \
        else incat(c, it["k"])


# ------------------------------------------------------------ regex printing
_SPECIAL = set("\\.^$*+?{}[]|()")


def _lit(c, in_class=False):
    ch = chr(c)
    if ch == "\n":
        return "\\n"
    if ch == "\t":
        return "\\t"
    if ch == "\0":
        return "\\x00"
    if in_class:
        return "\\" + ch if ch in "\\]^-[&~|" else ch
    return "\\" + ch if ch in _SPECIAL else ch


def rprint(x, st=None):
    """Pattern text of a tree (concrete syntax Python's re accepts)."""
    if st is None:
        st = {"n": 0}
    r = x["r"]
    if r == "lit":
        return _lit(x["c"])
    if r == "any":
        return "."
    if r == "cat":
        return "\\" + x["k"]
    if r == "set":
        body = ""
        for it in x["items"]:
            if it["i"] == "c":
                body += _lit(it["c"], True)
            elif it["i"] == "r":
                body += _lit(it["lo"], True) + "-" + _lit(it["hi"], True)
            else:
                body += "\\" + it["k"]
        return "[" + ("^" if x["neg"] else "") + body + "]"
    if r == "seq":
        out = ""
        for y in x["xs"]:
            t = rprint(y, st)
            out += "(?:" + t + ")" if y["r"] == "alt" else t
        return out
    if r == "alt":
        return "|".join(rprint(y, st) for y in x["xs"])
    if r == "rep":
        inner = x["x"]
        simple = inner["r"] in ("lit", "any", "cat", "set", "grp")
        if not simple:
            body = "(?:" + rprint(inner, st) + ")"
        else:
            body = rprint(inner, st)
        lo, hi = x["lo"], x["hi"]
        if (lo, hi) == (0, -1):
            q = "*"
        elif (lo, hi) == (1, -1):
            q = "+"
        elif (lo, hi) == (0, 1):
            q = "?"
        elif hi == lo:
            q = "{%d}" % lo
        elif hi == -1:
            q = "{%d,}" % lo
        elif lo == 0 and (hi % 2):
            q = "{,%d}" % hi
        else:
            q = "{%d,%d}" % (lo, hi)
        return body + q + {"greedy": "", "lazy": "?", "poss": "+"}[x["q"]]
    if r == "grp":
        if x["g"] in ("cap", "named"):
            st["n"] += 1
            n = st["n"]
            head = "(" if x["g"] == "cap" else "(?P<n%d>" % n
        else:
            head = "(?:" if x["g"] == "non" else "(?>"
        return head + rprint(x["x"], st) + ")"
    if r == "at":
        return {"bol": "^", "A": "\\A", "eol": "$", "Z": "\\Z", "b": "\\b", "B": "\\B"}[x["a"]]
    if r == "look":
        return "(?" + ("" if x["a"] == ">" else "<") + ("!" if x["neg"] else "=") + rprint(
            x["x"], st) + ")"
    if r == "ref":
        return "(?:\\%d)" % st["n"]
    raise ValueError(r)


def norm(x):
    """One tree per pattern text."""
    r = x["r"]
    if r == "seq":
        xs = []
        for y in map(norm, x["xs"]):
            if y["r"] == "seq":
                xs += y["xs"]
            elif y["r"] == "alt":
                xs.append({"r": "grp", "g": "non", "x": y})
            else:
                xs.append(y)
        return xs[0] if len(xs) == 1 else {"r": "seq", "xs": xs}
    if r == "alt":
        xs = []
        for y in map(norm, x["xs"]):
            xs += y["xs"] if y["r"] == "alt" else [y]
        return xs[0] if len(xs) == 1 else {"r": "alt", "xs": xs}
    if r == "rep":
        y = norm(x["x"])
        if y["r"] not in ("lit", "any", "cat", "set", "grp"):
            y = {"r": "grp", "g": "non", "x": y}
        return dict(x, x=y)
    if "x" in x:
        return dict(x, x=norm(x["x"]))
    return x


def pattern(x):
    x = norm(x)
    t = rprint(x)
    assert E.PATTERNS.setdefault(t, x) == x, (t, x)
    return {"p": t, "x": x}
