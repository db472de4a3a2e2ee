"""Named hostile values: standard-library data that is not plain, subclasses of
built-ins, opaque objects, values that are hard to print, copy or compare."""
import array
import collections
import datetime as dt
import decimal
import enum
import fractions
import functools
import ipaddress
import math
import pathlib
import re
import types
import uuid

from . import enc as E


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Word(str, enum.Enum):
    A = "a"
    B = "banana"


class Perm(enum.Flag):
    R = 1
    W = 2


@E.subclass
class MyStr(str):
    pass


@E.subclass
class MyInt(int):
    pass


@E.subclass
class MyFloat(float):
    pass


@E.subclass
class MyBytes(bytes):
    pass


@E.subclass
class MyList(list):
    pass


@E.subclass
class MyDict(dict):
    pass


@E.subclass
class MyUUID(uuid.UUID):
    pass


@E.subclass
class MyDatetime(dt.datetime):
    pass


@E.subclass
class MyDate(dt.date):
    pass


E.subclass(collections.OrderedDict)
E.subclass(collections.defaultdict)
Point = E.subclass(collections.namedtuple("Point", "x y"))


class Opaque:
    pass


class NoCopy:
    def __deepcopy__(self, memo):
        raise TypeError("cannot copy")

    __copy__ = __reduce__ = __reduce_ex__ = __deepcopy__


class Slotted:
    __slots__ = ("a",)


class Hashed:
    def __hash__(self):
        return 7


class Same:
    def __init__(self, name="Same()"):
        self.name = name

    def __repr__(self):
        return self.name


def gen():
    yield 1


_cyc_l = [1]
_cyc_l.append(_cyc_l)
_cyc_d = {"a": 1}
_cyc_d["id"] = _cyc_d
_deep = []
for _ in range(100000):
    _deep = [_deep]
_deepd = {}
for _ in range(3000):
    _deepd = {"a": _deepd}

ITEMS = {
    "decimal": decimal.Decimal("1.5"), "decimal_nan": decimal.Decimal("NaN"),
    "decimal_inf": decimal.Decimal("Infinity"), "decimal_one": decimal.Decimal(1),
    "fraction": fractions.Fraction(1, 3), "fraction_one": fractions.Fraction(1),
    "complex": 1 + 2j, "complex_nan": complex(math.nan, 1), "set": {1, 2}, "empty_set": set(),
    "frozenset": frozenset("ab"), "bytearray": bytearray(b"ab"), "memoryview": memoryview(b"ab"),
    "range": range(3), "deque": collections.deque([1, 2]), "counter_obj": Opaque(),
    "userdict": collections.UserDict({"a": 1}), "userlist": collections.UserList([1]),
    "userstring": collections.UserString("abc"), "array": array.array("i", [1, 2]),
    "mappingproxy": types.MappingProxyType({"a": 1}), "chainmap": collections.ChainMap({"a": 1}),
    "enum": Color.RED, "enum_b": Color.BLUE, "flag": Perm.R | Perm.W,
    "namespace": types.SimpleNamespace(a=1), "object": object(), "opaque": Opaque(),
    "nocopy": NoCopy(), "slotted": Slotted(), "hashed": Hashed(), "class": Opaque, "type_int": int,
    "type_str": str, "function": gen, "lambda": (lambda x: x), "generator": gen(),
    "iterator": iter([1, 2]), "dict_keys": {"a": 1}.keys(), "dict_items": {"a": 1}.items(),
    "map": map(str, []), "zip": zip(), "module": math, "notimplemented": NotImplemented,
    "exception": ValueError("x"), "partial": functools.partial(int), "path": pathlib.PurePosixPath("/a"),
    "ip": ipaddress.ip_address("127.0.0.1"), "timedelta": dt.timedelta(1), "time": dt.time(1, 2),
    "timezone": dt.timezone.utc, "re_pattern": re.compile("a"), "re_match": re.match("a", "a"),
    "slice": slice(1), "property": property(), "builtin": len, "code": gen.__code__,
    "generic_alias": list[int], "weird_uuid": types.SimpleNamespace(version=4),
}
# built-in kinds that cannot be written structurally
FORCED = {"cyclic_list": _cyc_l, "cyclic_dict": _cyc_d, "deep_list": _deep, "deep_dict": _deepd,
          "intenum": Num.TWO, "strenum": Word.B, "huge_int": 10**6000,
          "huge_neg": -10**6000, "counter": collections.Counter("ab"), "surrogate_list": ["\ud800"]}
for k, v in {**ITEMS, **FORCED}.items():
    E.ZOO.add(k, v)
for k, v in FORCED.items():
    E.FORCED[id(v)] = k

STRUCT = [  # structurally encodable odd values
    (), (1, 2), (1, (2, "z")), ("a",), Point(1, 2), MyStr("abc"), MyStr(""), MyInt(5), MyInt(0), MyFloat(1.5),
    MyFloat("nan"), MyBytes(b"ab"), MyList([1, 2]), MyList(), MyDict(a=1), MyDict(),
    collections.OrderedDict(a=1), collections.defaultdict(int, {"a": 1}),
    MyUUID("886313e1-3b8a-4372-9b90-0c9aee199e5d"), MyUUID(int=0), MyDatetime(2020, 1, 2),
    MyDate(2020, 1, 2), uuid.UUID(int=0), uuid.UUID("886313e1-3b8a-1372-9b90-0c9aee199e5d"),
    uuid.UUID("886313e1-3b8a-4372-1b90-0c9aee199e5d"), math.nan, math.inf, -math.inf, 10**400,
    -10**400, 2**1024, 1e308, 5e-324, -0.0, "\ud800", "\udfff\ud800", "a" * 3000, "\x00", "\x1b[0m",
    b"\xff" * 300, ..., {1: 2}, {None: 1}, {True: 1}, {1.5: 1}, {math.nan: 1}, {math.inf: 2},
    {(1, 2): 1}, {(): None}, {b"k": 1}, {..., 1} and {...: 1}, {"a": {...: ...}}, {frozenset(): 1},
    {10**400: 1}, {"\ud800": 1}, [math.nan], [[[[[[]]]]]], [None] * 50, {"": ""},
    dt.datetime(2020, 1, 2, tzinfo=dt.timezone(dt.timedelta(hours=3))), dt.datetime.min,
    dt.datetime.max, dt.date.min, dt.date.max,
    dt.datetime.max.replace(tzinfo=dt.timezone(dt.timedelta(hours=-3))),
    dt.datetime.min.replace(tzinfo=dt.timezone(dt.timedelta(hours=3))),
]
# keys only zoo objects can be
ZKEYS = [math.nan, math.inf, frozenset("ab"), ITEMS["enum"], ITEMS["object"], ITEMS["nocopy"],
         ITEMS["hashed"], ITEMS["class"], ITEMS["function"], decimal.Decimal("1.5"), Point(1, 2),
         MyStr("id"), MyInt(1), ..., NotImplemented, range(2), "\ud800", (1, ITEMS["nocopy"]), dt.time(1),
         10**400, 1j, None, (), b"", True]
E.ZOO.add("decimal_key", ZKEYS[9])
E.ZOO.add("range_key", ZKEYS[15])
E.ZOO.add("time_key", ZKEYS[18])
E.ZOO.add("complex_key", ZKEYS[20])
E.ZOO.add("empty_frozenset", frozenset())

# keys that differ and print alike
ALIKE = [[float("nan"), float("nan"), float("nan")], [Same(), Same()], [Same("'a'"), "a"], [Same("'id'"), "id"],
         [Same("0"), 0], [Same(""), Same("")], [Same("\n"), Same("\n\n")], [decimal.Decimal("NaN"), decimal.Decimal("NaN")]]
for _i, _k in enumerate(k for ks in ALIKE for k in ks):
    if not isinstance(_k, (float, str, int)):
        E.ZOO.add("alike%d" % _i, _k)

ALL = (list(ITEMS.values()) + list(FORCED.values()) + STRUCT +
       [{k: k for k in ks} for ks in ALIKE] + [[{k: 1 for k in ks}] for ks in ALIKE[:2]])
#: values the specification can reason about structurally (an object of kind "other"
#: is an instance of no built-in type)
JUDGED = [v for v in list(ITEMS.values()) + STRUCT if not (type(v) is dict and math.nan in v)
          # (MyDate(2020, 1, 2) == datetime(2020, 1, 2, 3) is true, by an accident of CPython)
          and type(v) is not MyDate]
