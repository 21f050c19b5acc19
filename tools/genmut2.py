"""Development aid: structural mutants (statements moved across a with or a try, doubled, cached), see genmut.py.

genmut2.py SRC_DIR  -> JSON lines {id, file, line, what, old, new, start, end}; start..end covers the whole file
"""
import ast
import copy
import json
import pathlib
import sys

src = pathlib.Path(sys.argv[1])


def bodies(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def edits(text):
    """Pairs (what, line, mutated tree)."""
    base = ast.parse(text)
    places = [(type(n).__name__, f, len(b)) for n, f, b in bodies(base)]
    for k in range(len(places)):
        def fresh():
            t = ast.parse(text)
            return t, list(bodies(t))[k]
        n0, f0, b0 = list(bodies(base))[k]
        for i, s in enumerate(b0):
            if isinstance(s, ast.With):
                t, (n, f, b) = fresh()
                w = b[i]
                if len(w.body) > 1:
                    last = w.body.pop()
                    b.insert(i + 1, last)
                    yield "last statement out of with", s.lineno, t
                    t, (n, f, b) = fresh()
                    w = b[i]
                    b.insert(i, w.body.pop(0))
                    yield "first statement out of with", s.lineno, t
                if i + 1 < len(b0) and not isinstance(n0, ast.Module):
                    t, (n, f, b) = fresh()
                    b[i].body.append(b.pop(i + 1))
                    yield "next statement into with", s.lineno, t
            if isinstance(s, ast.Try):
                if s.finalbody:
                    t, (n, f, b) = fresh()
                    w = b[i]
                    fin = w.finalbody
                    w.finalbody = []
                    b[i:i + 1] = ([w] if w.handlers else w.body) + fin
                    yield "finally to after", s.lineno, t
                if s.orelse:
                    t, (n, f, b) = fresh()
                    w = b[i]
                    w.body += w.orelse
                    w.orelse = []
                    yield "else into try", s.lineno, t
                    t, (n, f, b) = fresh()
                    w = b[i]
                    b[i + 1:i + 1] = w.orelse
                    w.orelse = []
                    yield "else to after", s.lineno, t
                if i + 1 < len(b0) and not s.orelse:
                    t, (n, f, b) = fresh()
                    b[i].body.append(b.pop(i + 1))
                    yield "next statement into try", s.lineno, t
                if i > 0:
                    t, (n, f, b) = fresh()
                    b[i].body.insert(0, b.pop(i - 1))
                    yield "previous statement into try", s.lineno, t
                if len(s.body) > 1:
                    t, (n, f, b) = fresh()
                    b.insert(i, b[i].body.pop(0))
                    yield "first statement out of try", s.lineno, t
            if isinstance(s, (ast.For, ast.While)):
                t, (n, f, b) = fresh()
                b[i].body.append(ast.Break())
                yield "one iteration", s.lineno, t
                if len(s.body) > 1:
                    t, (n, f, b) = fresh()
                    b.insert(i + 1, b[i].body.pop())
                    yield "last statement out of loop", s.lineno, t
            if isinstance(s, ast.If) and not isinstance(n0, ast.Module):
                t, (n, f, b) = fresh()
                if len(b[i].body) > 1:
                    b.insert(i + 1, b[i].body.pop())
                    yield "last statement out of if", s.lineno, t
                if s.orelse:
                    t, (n, f, b) = fresh()
                    b[i + 1:i + 1] = b[i].orelse
                    b[i].orelse = []
                    yield "else always", s.lineno, t
                if i + 1 < len(b0) and not isinstance(b0[i + 1], ast.FunctionDef):
                    t, (n, f, b) = fresh()
                    b[i].body.append(b.pop(i + 1))
                    yield "next statement into if", s.lineno, t
                if i > 0 and isinstance(b0[i - 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                    t, (n, f, b) = fresh()
                    b.insert(i, b.pop(i - 1))
                    yield "previous statement after if", s.lineno, t
            if isinstance(s, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(s, "value", None), ast.Constant) \
                    and not isinstance(n0, (ast.Module, ast.ClassDef)):
                t, (n, f, b) = fresh()
                b.insert(i, copy.deepcopy(b[i]))
                yield "twice", s.lineno, t
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and not s.name.startswith("__"):
                t, (n, f, b) = fresh()
                b[i].decorator_list.append(ast.parse("__import__('functools').lru_cache(maxsize=None)", mode="eval").body)
                yield "cached", s.lineno, t
            if isinstance(s, ast.Return) and i > 1 and isinstance(b0[i - 1], ast.Expr):
                t, (n, f, b) = fresh()
                r, e = b[i], b[i - 1]
                b[i - 1:i + 1] = [ast.Try(body=[r], handlers=[], orelse=[], finalbody=[e])]
                yield "previous statement after return", s.lineno, t
    for k, n0 in enumerate(ast.walk(base)):
        def fresh():
            t = ast.parse(text)
            return t, list(ast.walk(t))[k]
        if isinstance(n0, ast.Call) and isinstance(n0.func, ast.Name) and n0.func.id == "isinstance" and len(n0.args) == 2 \
                and isinstance(n0.args[1], ast.Name):
            t, n = fresh()
            new = ast.Compare(ast.Call(ast.Name("type"), [n.args[0]], []), [ast.Is()], [n.args[1]])
            replace(t, n, new)
            yield "isinstance to exact type", n0.lineno, t
        if isinstance(n0, ast.Compare) and isinstance(n0.left, ast.Call) and isinstance(n0.left.func, ast.Name) \
                and n0.left.func.id == "type" and isinstance(n0.ops[0], (ast.Is, ast.Eq)):
            t, n = fresh()
            replace(t, n, ast.Call(ast.Name("isinstance"), [n.left.args[0], n.comparators[0]], []))
            yield "exact type to isinstance", n0.lineno, t
        if isinstance(n0, ast.Raise) and n0.cause is not None:
            t, n = fresh()
            n.cause = None
            yield "no cause", n0.lineno, t
        if isinstance(n0, ast.Call) and any(isinstance(a, ast.GeneratorExp) for a in n0.args):
            pass
        if isinstance(n0, ast.Compare) and isinstance(n0.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(n0.comparators[0], ast.Constant) and n0.comparators[0].value is None:
            t, n = fresh()
            new = n.left if isinstance(n.ops[0], ast.IsNot) else ast.UnaryOp(ast.Not(), n.left)
            replace(t, n, new)
            yield "None test to truth", n0.lineno, t
        if isinstance(n0, ast.Subscript) and isinstance(n0.ctx, ast.Load) and not isinstance(n0.slice, ast.Slice) \
                and not isinstance(n0.slice, ast.Constant):
            t, n = fresh()
            replace(t, n, ast.Call(ast.Attribute(n.value, "get", ast.Load()), [n.slice], []))
            yield "subscript to get", n0.lineno, t


def replace(tree, old, new):
    class R(ast.NodeTransformer):
        def visit(self, n):
            return new if n is old else self.generic_visit(n)
    R().visit(tree)


k = 0
for f in sorted(src.rglob("*.py")):
    rel = str(f.relative_to(src))
    if "_testing" in rel or "_util/validation" in rel or rel.endswith("_version.py") or "nx_" in rel:
        continue
    text = f.read_text()
    seen = {ast.dump(ast.parse(text))}
    for what, line, t in edits(text):
        # (annotations: leave them alone)
        for n in ast.walk(t):
            for fld in ("body",):
                if getattr(n, fld, None) == [] and not isinstance(n, ast.Module):
                    setattr(n, fld, [ast.Pass()])
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
            compile(new, rel, "exec")
        except (SyntaxError, ValueError):
            continue
        d = ast.dump(ast.parse(new))
        if d in seen:
            continue
        seen.add(d)
        print(json.dumps(dict(id=100000 + k, file=rel, line=line, what=what, old=text.splitlines()[line - 1].strip(),
                              new=new, start=0, end=len(text.encode()))))
        k += 1
