"""Rendering of abstract schemas for people."""
from . import enc as E


def show(s):
    t = s["t"]
    if t == "ell":
        return "..."
    out = t
    for k, v in s.items():
        if k == "t" or v == []:
            continue
        if k in ("value", "min", "max"):
            out += ".%s(%r)" % (k, E.dec(v[0]))
        elif k in ("alphabet", "substr"):
            out += ".%s(%r)" % (k, E.untext(v[0]))
        elif k == "pattern":
            out += ".regex(%r)" % v[0]["p"]
        elif k in ("elems", "types"):
            out += "[" + ", ".join(map(show, v[0])) + "]"
        elif k == "keys":
            out += "{" + ", ".join(("optional(%r)" if o else "%r") % (E.dec(a),) + ": " + show(b)
                                   for a, b, o in v[0]) + "}"
        elif k == "type" and t != "alias":
            out += "<" + show(v[0]) + ">"
        elif k in ("type", "inner"):
            out += "<" + show(v) + ">"
        else:
            out += ".%s(%s)" % (k, v[0] if isinstance(v, list) else v)
    return out
