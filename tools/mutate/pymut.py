#!/usr/bin/env python3
"""pymut.py FILE...: lists single mutations of Python files, one JSON object per
line (same form as the Go lister): development aid for tools/mutrun.py."""
import ast
import json
import sys

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
CMPT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
CMP2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "%"), ast.Mod: ("%", "//"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.Pow: ("**", "*")}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list", "reversed": "list"}


def run(path):
    src = open(path, "rb").read()
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l))
    tree = ast.parse(src)
    at = lambda n: starts[n.lineno - 1] + n.col_offset
    end = lambda n: starts[n.end_lineno - 1] + n.end_col_offset
    text = lambda n: src[at(n):end(n)].decode()

    def emit(a, b, new, kind, fn):
        old = src[a:b].decode()
        if old != new:
            print(json.dumps({"file": path, "off": a, "len": b - a, "old": old, "new": new, "kind": kind, "func": fn, "line": src[:a].count(b"\n") + 1}))

    def between(a, b, tok, new, kind, fn):
        seg = src[a:b].decode()
        i = seg.find(tok)
        if i >= 0 and seg.count(tok) == 1:
            emit(a + len(seg[:i].encode()), a + len(seg[:i].encode()) + len(tok), new, kind, fn)

    def visit(n, fn, doc=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
        if isinstance(n, ast.Compare):
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                between(end(l), at(r), CMPT[type(op)], CMP[type(op)], "cmp", fn)
                if type(op) in CMP2:
                    between(end(l), at(r), CMPT[type(op)], CMP2[type(op)], "cmp2", fn)
                l = r
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            t, new = BIN[type(n.op)]
            between(end(n.left), at(n.right), t, new, "bin", fn)
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            t, new = BIN[type(n.op)]
            between(end(n.target), at(n.value), t + "=", new + "=", "aug", fn)
        elif isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                a, b = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                between(end(l), at(r), a, b, "bool", fn)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(at(n), end(n), "(" + text(n.operand) + ")", "not", fn)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            emit(at(n), end(n), text(n.operand), "neg", fn)
        elif isinstance(n, ast.Constant) and not doc:
            v = n.value
            if isinstance(v, bool):
                emit(at(n), end(n), str(not v), "const", fn)
            elif isinstance(v, (int, float)):
                emit(at(n), end(n), repr(v + 1), "const", fn)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n.test, ast.Compare):
                emit(at(n.test), end(n.test), "not (" + text(n.test) + ")", "cond", fn)
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                emit(at(c), end(c), "True", "compif", fn)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in NAMES:
            emit(at(n.func), end(n.func), NAMES[n.func.id], "name", fn)
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    emit(at(x), end(x), "", "slice", fn)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            pass
        for name, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.stmt):
                        isdoc = isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
                        simple = isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Continue, ast.Break, ast.Raise, ast.Delete, ast.Assert)) and not isdoc
                        if simple and fn and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and getattr(x.value.func, "id", "") == "print"):
                            if isinstance(x, ast.Return) and x.value is not None:
                                emit(at(x), end(x), "return None", "ret", fn)
                            else:
                                emit(at(x), end(x), "pass", "del", fn)
                        visit(x, fn, isdoc)
                    elif isinstance(x, ast.AST):
                        visit(x, fn)
            elif isinstance(v, ast.AST) and name not in ("annotation", "returns"):
                visit(v, fn, doc)

    visit(tree, "")


for f in sys.argv[1:]:
    run(f)
