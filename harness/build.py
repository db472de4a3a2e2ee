"""Building real schemas from abstract ones through the declaration DSL."""
from . import enc as E


def build(s, rng=None, custom=None):
    """rng: choose the order of refinement calls at random (else canonical)."""
    from d42 import optional, schema
    t = s["t"]
    if t == "ell":
        return ...
    if t == "none":
        return schema.none
    if t in ("bool", "bytes", "uuid4", "datetime", "date"):
        b = getattr(schema, t)
        return b(E.dec(s["value"][0])) if s["value"] else b
    if t in ("int", "float"):
        b = getattr(schema, t)
        if s["value"]:
            b = b(E.dec(s["value"][0]))
        ops = []
        if s["min"]:
            ops.append(lambda b: b.min(E.dec(s["min"][0])))
        if s["max"]:
            ops.append(lambda b: b.max(E.dec(s["max"][0])))
        if t == "float" and s["prec"]:
            ops.append(lambda b: b.precision(s["prec"][0]))
        return _apply(b, ops, rng)
    if t == "str":
        b = schema.str
        if s["value"]:
            b = b(E.dec(s["value"][0]))
        ops = []
        if s["alphabet"]:
            ops.append(lambda b: b.alphabet(E.untext(s["alphabet"][0])))
        if s["substr"]:
            ops.append(lambda b: b.contains(E.untext(s["substr"][0])))
        if s["pattern"]:
            E.PATTERNS[s["pattern"][0]["p"]] = s["pattern"][0]["x"]
            ops.append(lambda b: b.regex(s["pattern"][0]["p"]))
        ops += _len(s)
        return _apply(b, ops, rng)
    if t == "list":
        b = schema.list
        if s["type"]:
            b = b(build(s["type"][0], rng, custom))
        if s["elems"]:
            b = b([build(e, rng, custom) for e in s["elems"][0]])
        return _apply(b, _len(s), rng)
    if t == "dict":
        if not s["keys"]:
            return schema.dict
        d = {}
        for k, v, opt in s["keys"][0]:
            if k["k"] == "ell":
                d[...] = ...
            else:
                key = E.dec(k)
                d[optional(key) if opt else key] = build(v, rng, custom)
        return schema.dict(d)
    if t == "any":
        if not s["types"]:
            return schema.any
        return schema.any(*[build(x, rng, custom) for x in s["types"][0]])
    if t == "alias":
        return schema.alias(s["name"][0], build(s["type"], rng, custom))
    if t == "custom":
        if s.get("name") == "Bomb":
            return bomb(build(s["inner"], rng, custom))
        if s.get("name") == "Heir":
            return heir(build(s["inner"], rng, custom))
        return (custom or forwarding)(build(s["inner"], rng, custom))
    raise ValueError(t)


def _len(s):
    if s["len"]:
        return [lambda b: b.len(s["len"][0])]
    if s["minlen"] and s["maxlen"]:
        return [lambda b: b.len(s["minlen"][0], s["maxlen"][0])]
    if s["minlen"]:
        return [lambda b: b.len(s["minlen"][0], ...)]
    if s["maxlen"]:
        return [lambda b: b.len(..., s["maxlen"][0])]
    return []


def _apply(b, ops, rng):
    if rng is not None:
        rng.shuffle(ops)
    for f in ops:
        b = f(b)
    return b


_cls = None


def forwarding(inner):
    """A CustomSchema that forwards every hook to a built-in schema."""
    global _cls
    if _cls is None:
        from d42.custom_type import CustomSchema, Props

        class ForwardProps(Props):
            pass

        class Forward(CustomSchema[ForwardProps]):
            def __represent__(self, visitor, indent=0, **kwargs):
                return self.props.get("inner").__accept__(visitor, indent=indent, **kwargs)

            def __generate__(self, visitor, **kwargs):
                return self.props.get("inner").__accept__(visitor, **kwargs)

            def __validate__(self, visitor, value=None, path=None, **kwargs):
                return self.props.get("inner").__accept__(visitor, value=value, path=path, **kwargs)

            def __substitute__(self, visitor, value=None, **kwargs):
                inner = self.props.get("inner").__accept__(visitor, value=value, **kwargs)
                return self.__class__(self.props.update(inner=inner))
        _cls = (Forward, ForwardProps)
    F, P = _cls
    return F(P().update(inner=inner))


_heir = None


def heir(inner):
    """A custom schema whose type derives from another custom type."""
    global _heir
    if _heir is None:
        class Heir(type(forwarding(inner))):
            pass
        _heir = Heir
    return _heir(forwarding(inner).props)


_bomb = None


def bomb(inner):
    """A custom schema whose hooks raise (after doing half of the work)."""
    global _bomb
    if _bomb is None:
        base = type(forwarding(inner))

        class Bomb(base):
            def __generate__(self, visitor, **kwargs):
                super().__generate__(visitor, **kwargs)
                raise RuntimeError("bomb")

            def __validate__(self, visitor, value=None, path=None, **kwargs):
                super().__validate__(visitor, value=value, path=path, **kwargs)
                raise RuntimeError("bomb")

            def __substitute__(self, visitor, value=None, **kwargs):
                super().__substitute__(visitor, value=value, **kwargs)
                raise RuntimeError("bomb")
        _bomb = Bomb
    return _bomb(forwarding(inner).props)
