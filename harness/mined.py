"""Constants of the code under test (and their neighbours), offered as inputs."""
import ast
import os


def _mine():
    import d42
    ints, floats, strs = set(), set(), set()
    for root, _, files in os.walk(os.path.dirname(os.path.abspath(d42.__file__))):
        for f in files:
            if not f.endswith(".py") or "migration" in root:
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding="utf8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            skip = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
            skip |= {id(x) for n in ast.walk(tree) if isinstance(n, ast.JoinedStr) for x in n.values}
            skip |= {id(x) for n in ast.walk(tree) if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets)
                for x in ast.walk(n.value)}
            for n in ast.walk(tree):
                if not isinstance(n, ast.Constant) or id(n) in skip:
                    continue
                v = n.value
                if type(v) is int and abs(v) < 2**70:
                    ints |= {v - 1, v, v + 1, -v}
                elif type(v) is float and v == v and abs(v) < 1e300:
                    floats |= {v, -v}
                    if abs(v) < 2**60:
                        ints |= {int(v), int(v) + 1}
                elif type(v) is str and len(v) <= 16:
                    strs.add(v)
                elif type(v) is bytes and len(v) <= 16:
                    strs.add(v.decode("latin1"))
    return sorted(ints), sorted(floats | {float(i) for i in ints if abs(i) < 2**53}), sorted(strs)


try:
    INTS, FLOATS, STRS = _mine()
except Exception:
    INTS, FLOATS, STRS = [], [], []
LENS = [i for i in INTS if 0 <= i <= 70]
