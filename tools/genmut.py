"""Development aid: single-edit mutants of uberjob's source (not part of any check).

genmut.py SRC_DIR  -> JSON lines {id, file, line, what, old, new, start, end} (offsets in the file's text)
"""
import ast
import json
import pathlib
import sys

src = pathlib.Path(sys.argv[1])
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not", "=="], ast.IsNot: ["is", "!="], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.BitOr: ["&"],
       ast.BitAnd: ["|"]}


class V(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = [0]
        for line in text.encode().split(b"\n"):
            self.lines.append(self.lines[-1] + len(line) + 1)
        self.raw = text.encode()
        self.out = []
        self.fn = []

    def off(self, line, col):
        return self.lines[line - 1] + col

    def span(self, n):
        return self.off(n.lineno, n.col_offset), self.off(n.end_lineno, n.end_col_offset)

    def seg(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        self.out.append(dict(line=n.lineno, what=what, old=self.raw[a:b].decode(), new=new, start=a, end=b))

    def stmts(self, body):
        doc = True
        for i, s in enumerate(body):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break, ast.If,
                              ast.For, ast.While, ast.Assert)):
                self.put(s, "pass", "delete")
            if isinstance(s, ast.Return) and s.value is not None and not (
                    isinstance(s.value, ast.Constant) and s.value.value is None):
                self.put(s, "return None", "return None")
            if isinstance(s, ast.With):
                a, b = self.span(s)
                h = self.off(s.body[0].lineno, s.body[0].col_offset)
                if all(w.optional_vars is None for w in s.items):
                    self.out.append(dict(line=s.lineno, what="without with", old=self.raw[a:h].decode(),
                                         new="if True:\n" + " " * s.body[0].col_offset, start=a, end=h))
            if isinstance(s, ast.Try) and s.finalbody:
                a = self.off(s.finalbody[0].lineno, s.finalbody[0].col_offset)
                b = self.span(s.finalbody[-1])[1]
                self.out.append(dict(line=s.finalbody[0].lineno, what="no finally", old=self.raw[a:b].decode(), new="pass",
                                     start=a, end=b))
            if i + 1 < len(body):
                t = body[i + 1]
                ok = (ast.Expr, ast.Assign, ast.AugAssign)
                if isinstance(s, ok) and isinstance(t, ok):
                    a, b = self.span(s)
                    c, d = self.span(t)
                    self.out.append(dict(line=s.lineno, what="swap", old=self.raw[a:d].decode(),
                                         new=(self.raw[c:d] + self.raw[b:c] + self.raw[a:b]).decode(), start=a, end=d))

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.Module):
                self.stmts(b)
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            s = self.seg(n.type)
            if s == "Exception":
                self.put(n.type, "BaseException", "except")
                self.put(n.type, "ValueError", "except")
            elif s == "BaseException":
                self.put(n.type, "Exception", "except")
            else:
                self.put(n.type, "Exception", "except")
        super().generic_visit(n)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.decorator_list:
            s = self.seg(d)
            if s not in ("property", "abstractmethod", "contextmanager", "staticmethod", "classmethod"):
                a, b = self.span(d)
                self.out.append(dict(line=d.lineno, what="no decorator", old=s, new="(lambda f: f)", start=a, end=b))
        for d in [*n.args.defaults, *[x for x in n.args.kw_defaults if x]]:
            self.const(d)
        for st in n.body:
            pass
        # do not look at annotations
        self.stmts(n.body)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_If(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def visit_While(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for c in n.ifs:
            self.cond(c)
        self.generic_visit(n)

    def cond(self, t):
        self.put(t, f"(not ({self.seg(t)}))", "negate")
        self.put(t, "True", "cond True")
        self.put(t, "False", "cond False")

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.put(n, f"{self.seg(n.left)} {o} {self.seg(n.comparators[0])}", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, op.join(f"({self.seg(v)})" for v in n.values), "and/or")
        for v in n.values:
            rest = [w for w in n.values if w is not v]
            self.put(n, (" and " if isinstance(n.op, ast.And) else " or ").join(f"({self.seg(w)})" for w in rest), "drop operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, f"({self.seg(n.operand)})", "drop not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        for o in BIN.get(type(n.op), []):
            self.put(n, f"{self.seg(n.left)} {o} {self.seg(n.right)}", "binop")
        self.generic_visit(n)

    def const(self, n):
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                self.put(n, str(not v), "const")
            elif type(v) is int:
                self.put(n, str(v + 1), "const")
                if v > 0:
                    self.put(n, str(v - 1), "const")
            elif v is None:
                pass
            elif type(v) is str and self.fn:
                self.put(n, repr(v + "X"), "const")

    def visit_Constant(self, n):
        self.const(n)

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.visit(v.value)

    def visit_Call(self, n):
        if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = self.span(n.args[0])
            c, d = self.span(n.args[1])
            self.out.append(dict(line=n.lineno, what="swap args", old=self.raw[a:d].decode(),
                                 new=(self.raw[c:d] + self.raw[b:c] + self.raw[a:b]).decode(), start=a, end=d))
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1 or k.arg:
                a = self.off(k.lineno, k.col_offset)
                b = self.off(k.end_lineno, k.end_col_offset)
                e = b
                if self.raw[b:b + 1] == b",":
                    e += 1
                    self.out.append(dict(line=k.lineno, what="drop keyword", old=self.raw[a:e].decode(), new="", start=a, end=e))
                elif len(n.keywords) + len(n.args) == 1:
                    self.out.append(dict(line=k.lineno, what="drop keyword", old=self.raw[a:e].decode(), new="", start=a, end=e))
        if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "tuple", "set", "reversed", "iter") and len(n.args) == 1:
            self.put(n, self.seg(n.args[0]), "unwrap")
        if isinstance(n.func, ast.Name) and n.func.id in ("all", "any"):
            self.put(n.func, "any" if n.func.id == "all" else "all", "all/any")
        if isinstance(n.func, ast.Name) and n.func.id in ("max", "min"):
            self.put(n.func, "min" if n.func.id == "max" else "max", "min/max")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.visit(n.value)
        self.visit(n.slice)


seen = set()
k = 0
for f in sorted(src.rglob("*.py")):
    rel = str(f.relative_to(src))
    if "_testing" in rel or "_util/validation" in rel or rel.endswith("_version.py") or "nx_" in rel:
        continue
    text = f.read_text()
    v = V(text)
    v.visit(ast.parse(text))
    for m in v.out:
        key = (rel, m["start"], m["end"], m["new"])
        if key in seen or m["old"] == m["new"]:
            continue
        seen.add(key)
        mutated = (v.raw[:m["start"]] + m["new"].encode() + v.raw[m["end"]:]).decode()
        try:
            compile(mutated, rel, "exec")
        except SyntaxError:
            continue
        print(json.dumps(dict(id=k, file=rel, **m)))
        k += 1
