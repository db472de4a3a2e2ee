"""C19: the v1-to-v2 import rewriter on modules of every shape and layout."""
import ast
import contextlib
import importlib
import io
import json
import os
import re
import shutil
import tempfile
import warnings

from .. import core

PROP, LEVEL = "C19", "model_checking"
RULE = ("every target of the mapping; every module of the model MC_Migration (up to three statements, every "
        "import shape, one or two physical lines, joined by ';' or not) rendered with varying text; random "
        "modules of 1-9 statements mixing import forms (single/multi-line, parenthesised, backslashed, "
        "aliased, star, relative, nested, mixed mapped/unmapped) with statements and text that could mislead "
        "a line- or column-based rewriter (other characters, comments, docstrings holding imports, form "
        "feeds, unicode line separators, several statements on a line, every newline style, no trailing "
        "newline); through rewrite_imports and through migrate_v1_to_v2 on files; non-trivial when the "
        "module is distinct and imports a mapped name")
ASSUMPTIONS = ["Python's ast and compile() say what a module is, whether it is valid, and whether two "
               "statements are equal"]
N = {"quick": 1500, "thorough": 60000}

REAL = {"d": "district42", "e": "blahblah", "o": "other.mod", "a": "schema", "b": "Props", "c": "optional"}


def models(tier, seed):
    return [{"module": "MC_Migration", "cfg": "MC_Migration%d.cfg" % (2 if tier == "nope" else 3),
             "parse": behaviours}]


def behaviours(out):
    r = [{"kind": "targets"}]
    for k, line in enumerate(sorted(re.findall(r'^"BEH (.*)"$', out, re.M))):
        r.append({"kind": "model", "p": json.loads(line.replace('\\"', '"').replace("\\\\", "\\"))["p"], "n": k})
    return r


OTHERS = {1: ["x = 1", "x = 'é日😀'", "x = 'from district42 import schema'", "pass", "import district42"],
          2: ["y()", "y = [1, 2]", "assert True, 'ж'", "global q", "import os.path as d"],
          3: ["if x:\n    from district42 import schema\n    z = 2", "def f():\n    return '''\nfrom district42 import "
              "schema\n'''", "class A: from district42 import schema", "try:\n  from district42 import schema\nexcept "
              "ImportError: pass"]}
MULTI = {1: ["x = (1,\n  2)", "x = '''é\nfrom district42 import schema\n'''", "x = 1 + \\\n  2"],
         2: ["y(\n)", "y = [1, # c\n 2]", "assert True, \\\n 'ж'"]}


def render(p, n):
    """Text for a module of the model; n varies what the model leaves open."""
    nl = ["\n", "\n", "\r\n", "\n", "\r"][n % 5]
    tr = lambda x: REAL.get(x, x)
    out = ""
    for i, x in enumerate(p):
        st, lay = x["st"], x["lay"]
        two = lay["parts"] == 2
        if st["k"] == "other":
            text = (OTHERS if not two or st["id"] == 3 else MULTI)[st["id"]]
            text = text[(n + i) % len(text)]
        else:
            names = ["%s as %s" % (tr(a), tr(b)) if tr(a) != tr(b) else tr(a) for a, b in st["names"]]
            if two and (n + i) % 3 == 0:
                text = "from %s \\\n import %s" % (tr(st["mod"]), ", ".join(names))
            elif two:
                text = "from %s import (%s\n%s)" % (tr(st["mod"]), ", ".join(names[:1]) + ("," if names[1:] else ""),
                                                  ", ".join(names[1:]))
            elif (n + i) % 4 == 1:
                text = "from %s import (%s,)" % (tr(st["mod"]), ", ".join(names))
            else:
                text = "from %s import %s" % (tr(st["mod"]), ", ".join(names))
        text = text.replace("\n", nl)
        if lay["join"]:
            out += [";", "; ", " ;\t"][n % 3] + text
        else:
            out += (nl if out else "") + text
    tail = ["", nl, ";" if p and p[-1]["st"].get("id") != 3 else "", nl * 2, "  # end" + nl, "\x0c" + nl][n % 6]
    return out + tail


class Prog:
    def __init__(self, rng):
        self.r = rng
        from d42.migration.migrate_v1_to_v2 import mapping
        self.m = mapping

    def mod(self):
        c = self.r.random()
        if c < .8:
            return self.r.choice(sorted(self.m))
        return self.r.choice(["district42.nope", "os", "district43", "d42", "a.b.c", "valera.district42", "district42x",
                              "District42", "модуль", "__future__", "typing"])

    def name(self, mod):
        names = sorted(self.m.get(mod, {}))
        if names and self.r.random() < .75:
            return self.r.choice(names)
        other = self.m[self.r.choice(sorted(self.m))]
        return self.r.choice(["unmapped", "é", "Schema", "schema", "x_1", "имя", "_", self.ident(), self.r.choice(sorted(other))])

    def ident(self):
        r = self.r
        if r.random() < .3:
            return r.choice(["_", "__", "_1", "__all__", "__version__", "match", "case", "type", "ﬁx", "ª", "as_", "from_", "import_",
                             "Schema_", "D42", "district42", "d42", "w" * 90, "Null", "true", "print", "self"])
        x = "".join(r.choice("_abzAZxé09ж") for _ in range(r.choice([1, 1, 2, 3, 5, 12])))
        return x if x.isidentifier() and x not in ("as", "if", "in", "is", "or") else "_" + x

    def sp(self):
        return self.r.choice([" ", " ", " ", "  ", "\t", " \\\n ", " \\\n", "\x0c "])

    def sp0(self):
        return self.r.choice(["", "", "", " ", "\t"])

    def imp(self, level=0):
        r = self.r
        mod = self.mod()
        if mod == "__future__":
            return "from __future__ import annotations"
        if r.random() < .07:
            return "from%s%s import *" % (self.sp(), mod)
        names = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4, 6])):
            n = self.name(mod)
            if r.random() < .3:
                n += self.sp() + "as" + self.sp() + (r.choice(["x", "y", "sch", "é", "schema", "имя", n])
                                                                 if r.random() < .6 else self.ident())
            names.append(n)
        dotted = mod if r.random() < .93 else mod.replace(".", " . ")
        c = r.random()
        if c < .55:
            body = ", ".join(names) if r.random() < .8 else (self.sp0() + "," + self.sp0()).join(names)
            if r.random() < .15:
                body = ", \\\n    ".join(names)
        elif c < .7:
            body = "(" + ", ".join(names) + r.choice([")", ",)", " )"])
        else:
            nl = lambda: r.choice(["\n    ", "\n", "  # comment, é\n    ", "\n\n  # from x import y\n  ", " "])
            body = "(" + nl() + ("," + nl()).join(names) + r.choice(["", ",", ", # last"]) + r.choice(["\n", "\n  "]) + ")"
        lead = "." * r.choice([1, 1, 2, 3]) if r.random() < .06 else ""
        text = "from%s%s%s%simport%s%s" % (self.sp(), lead, dotted, self.sp(), "" if body[0] == "(" and
                                          r.random() < .2 else self.sp(), body)
        return text

    def simple(self):
        r = self.r
        return r.choice([
            "import district42", "import district42.types as t", "import os, sys", "x = 1", "pass", "x: int = 3",
            "s = 'from district42 import schema'", 's = "é日😀"', "s = '''\nfrom district42 import schema\n'''",
            "s = 'a\u2028b\x0bc\x1cd\x85'", "s = (1,\n     2,\n)", "s = f'{x}é{x!r}'", "del_ = lambda: 0; del del_",
            "assert x, 'm'", "x = [\n  1, # from district42 import schema\n]", "x = a if b else c", "global g",
            "x = 'a' \\\n    'b'", "x = '''é\r\nи'''", "s = b'\\xff'", "'''doc é\n'''", "...", "x = y = 2", "x += 1",
            "type X = int", "print('я'); print(2)", "x = \"\"\"\\\n from valera import validate\"\"\"", "raise_ = 1",
            "x = r'\\'", "x = '\\\n'", "__import__('district42')", "x = {'from': 1}", "x = 'tab\tüñ'"])

    def compound(self):
        r = self.r
        imp = self.imp()
        flat = imp if "\n" not in imp else "from district42 import schema"
        return r.choice([
            "if x:\n    %s\n" % flat, "def f():\n    %s\n    return 1\n" % flat.replace("*", "schema"),
            "class A:\n\t%s\n\tx = 1\n" % flat.replace("*", "schema"),
            "try:\n    %s\nexcept ImportError:\n    pass\n" % flat, "if True: pass\n", "for i in []: pass\nelse: x = 1\n",
            "@dec\ndef g(a, *, b=1):\n    '''d'''\n", "async def h():\n    await x\n", "with a as b: %s\n" % flat,
            "class B: pass\n", "match x:\n    case 1:\n        %s\n    case _: pass\n" % flat,
            "if TYPE_CHECKING:\n    from district42 import schema; x = 1\nelse:\n    y = 2\n",
            "def f():\n\n    # c\n\n    if x:\n        pass\n  # odd comment\n",
            "while 0:\n  break\n\x0c\n"])

    def module(self):
        r = self.r
        out = r.choice(["", "", "", "#!/usr/bin/env python\n", "# é comment\n", "\n\n", "'''doc\nfrom district42 import "
                        "schema\n'''\n", "\x0c\n", "# -*- coding: utf-8 -*-\n", "from __future__ import annotations\n"])
        for _ in range(r.choice([1, 1, 2, 3, 4, 6, 9])):
            c = r.random()
            if c < .2:
                out += self.compound()
                continue
            line = [self.imp() if r.random() < .6 else self.simple() for _ in range(r.choice([1, 1, 1, 2, 3]))]
            out += r.choice(["", "", "", "", "\x0c"]) + r.choice(["; ", ";", " ; ", ";\t"]).join(line)
            out += r.choice(["", "", "", ";", "  ", "  # note: é", " ; # x", "\t"]) + r.choice(["\n", "\n", "\n", "\n\n",
                                                                                         "\n# c\n", "\n   \n"])
        c = r.random()
        if c < .25:
            out = out.rstrip("\n")
        nl = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
        if nl != "\n":
            out = out.replace("\r\n", "\n").replace("\n", nl)
        elif r.random() < .1:
            out = "".join(x if x != "\n" else r.choice(["\n", "\r\n", "\r"]) for x in out)
        return out


def valid(src):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            tree = ast.parse(src)
            compile(src, "m", "exec", dont_inherit=True)
            return tree
        except (SyntaxError, ValueError, RecursionError, MemoryError):
            return None


def cases(rng, tier, shard, nshards):
    p = Prog(rng)
    n = 0
    while n < N[tier]:
        src = p.module()
        if valid(src) is None:
            continue
        n += 1
        yield {"kind": "file" if rng.random() < .15 else "text", "src": src,
               "enc": rng.choice(["utf-8", "utf-8", "utf-8-sig"])}


def statements(tree, ids):
    out = []
    for st in tree.body:
        if isinstance(st, ast.ImportFrom) and st.level == 0 and st.names[0].name != "*" and st.module != "__future__":
            out.append({"k": "from", "id": 0, "mod": st.module, "names": [[a.name, a.asname or a.name]
                                                                         for a in st.names]})
        else:
            d = ast.dump(st)
            out.append({"k": "other", "id": ids.setdefault(d, len(ids) + 1), "mod": "", "names": []})
    return out


def through_file(src, enc):
    """The text of the file, migrated (None when it was left alone)."""
    from d42.migration.migrate_v1_to_v2 import migrate_v1_to_v2
    d = tempfile.mkdtemp(prefix="vf-mig-")
    try:
        sub = os.path.join(d, "pkg")
        os.mkdir(sub)
        path = os.path.join(sub, "m.py")
        data = src.encode(enc)
        with open(path, "wb") as f:
            f.write(data)
        bystander = os.path.join(d, "note.txt")
        with open(bystander, "wb") as f:
            f.write(data)
        with contextlib.redirect_stdout(io.StringIO()) as out:
            migrate_v1_to_v2(d)
        with open(path, "rb") as f:
            now = f.read()
        with open(bystander, "rb") as f:
            if f.read() != data:
                raise RuntimeError("another file was changed")
        if sorted(os.listdir(d)) != ["note.txt", "pkg"] or os.listdir(sub) != ["m.py"]:
            raise RuntimeError("files appeared or vanished")
        if "Error" in out.getvalue():
            raise RuntimeError(out.getvalue())
        return None if now == data else now.decode(enc)
    finally:
        shutil.rmtree(d)


def targets():
    from d42.migration.migrate_v1_to_v2 import mapping
    out = []
    for mod, names in mapping.items():
        for name, (nm, nn) in names.items():
            try:
                ok = hasattr(importlib.import_module(nm), nn)
            except Exception:
                ok = False
            local, exc = core.call(bound, nm, nn, name)
            out.append({"mod": mod, "name": name, "nm": nm, "nn": nn, "ok": ok and not exc})
    return [{"op": "targets", "ts": out}]


def bound(nm, nn, name):
    ns = {}
    exec("from %s import %s" % (nm, nn), ns)
    return ns[nn]


def execute(case):
    from d42.migration import migrate_v1_to_v2 as _f  # noqa
    from d42.migration.migrate_v1_to_v2 import mapping, rewrite_imports
    if case["kind"] == "targets":
        return targets()
    src = render(case["p"], case["n"]) if case["kind"] == "model" else case["src"]
    tree = valid(src)
    if tree is None:
        return []
    ids = {}
    a = statements(tree, ids)
    mp = [[m, n, *t] for m, ns in mapping.items() for n, t in ns.items()
          if any(s["mod"] == m and any(n == x for x, _ in s["names"]) for s in a)]
    before = json.dumps(mapping)
    if case["kind"] == "file":
        if "\r" in src:         # what a text file holds is what reading it gives
            src = src.replace("\r\n", "\n").replace("\r", "\n")
        got, exc = core.call(through_file, src, case["enc"])
    else:
        got, exc = core.call(rewrite_imports, src, mapping)
    ev = {"op": "migrate", "in": a, "out": [], "map": mp, "kind": "none", "mapping": json.dumps(mapping) == before}
    if exc:
        ev["kind"] = "raised " + exc
    elif got is not None:
        t2 = valid(got) if isinstance(got, str) else None
        ev["kind"] = "text" if t2 is not None else "invalid"
        if t2 is not None:
            ev["out"] = statements(t2, ids)
    return [ev]


def nontrivial(case, evs):
    if case["kind"] == "targets":
        return ["targets"]
    return [case.get("src"), case.get("p"), case.get("n")] if evs[0]["map"] else None


def describe(case, ev):
    from d42.migration.migrate_v1_to_v2 import mapping, rewrite_imports
    if ev["op"] == "targets":
        return str([t for t in ev["ts"] if not t["ok"] or t["name"] != t["nn"]])[:600]
    src = render(case["p"], case["n"]) if case["kind"] == "model" else case["src"]
    return "%s %r -> %s %r" % (case["kind"], src[:600], ev["kind"], (core.call(rewrite_imports, src, mapping)[0] or "")[:600])
