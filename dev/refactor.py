#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole library (development tool; no check uses it).
    dev/refactor.py [NAME ...]     apply the rewrite in a scratch copy, run the tests, run every check: all must exit 0
Environment: ONLY="C01 C02" limits the checks.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
L = ast.Load


def name(i):
    return ast.Name(i, ast.Load())


def after_future(t):
    k = 0
    for i, x in enumerate(t.body):
        if i == 0 and isinstance(x, ast.Expr) or isinstance(x, ast.ImportFrom) and x.module == "__future__":
            k = i + 1
    return k


def assign(i, v):
    return ast.Assign([ast.Name(i, ast.Store())], v)


class RetTemp(ast.NodeTransformer):
    """return e  ->  out_ = e; return out_"""
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [assign("out_", n.value), ast.Return(name("out_"))]


class FlipIf(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse or [ast.Pass()], n.body)


class FlipCmp(ast.NodeTransformer):
    """a < b -> b > a (single comparisons)"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class NotCmp(ast.NodeTransformer):
    """a < b -> not a >= b"""
    M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.NotEq: ast.Eq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and not isinstance(n.left, ast.Set):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.M[type(n.ops[0])]()], n.comparators))
        return n


class Chain(ast.NodeTransformer):
    """a < b < c -> a < b and b < c"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1:
            vals, left = [], n.left
            for o, c in zip(n.ops, n.comparators):
                vals.append(ast.Compare(left, [o], [c]))
                left = copy.deepcopy(c)
            return ast.BoolOp(ast.And(), vals)
        return n


class Nest(ast.NodeTransformer):
    """if a and b: X (no else) -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for t in reversed(n.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class CondTemp(ast.NodeTransformer):
    """if c: -> flag_ = c; if flag_:   (first branch only: elif becomes else: if)"""
    k = 0

    def visit_If(self, n):
        self.generic_visit(n)
        CondTemp.k += 1
        v = f"flag{CondTemp.k}_"
        return [assign(v, n.test), ast.If(name(v), n.body, n.orelse)]


class While(ast.NodeTransformer):
    """for i in range(a, b) -> while (no continue in the body)"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) < 3
                and isinstance(n.target, ast.Name) and not n.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(n))):
            While.k += 1
            a = n.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
            c, e = f"next{While.k}_", f"stop{While.k}_"
            return [assign(c, lo), assign(e, hi),
                    ast.While(ast.Compare(name(c), [ast.Lt()], [name(e)]),
                              [assign(n.target.id, name(c)), assign(c, ast.BinOp(name(c), ast.Add(), ast.Constant(1)))] + n.body, [])]
        if not n.orelse and isinstance(n.iter, (ast.Attribute, ast.Name)) and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            While.k += 1
            c, e = f"pos{While.k}_", f"seq{While.k}_"
            return [assign(e, n.iter), assign(c, ast.Constant(0)),
                    ast.While(ast.Compare(name(c), [ast.Lt()], [ast.Call(name("len"), [name(e)], [])]),
                              [ast.Assign([n.target], ast.Subscript(name(e), name(c), ast.Load())),
                               ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]
        return n


class Enumerate(ast.NodeTransformer):
    """for x in seq -> for _, x in enumerate(list(seq))"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(name("enumerate"), [ast.Call(name("list"), [n.iter], [])], [])
        n.target = ast.Tuple([ast.Name("_i", ast.Store()), n.target], ast.Store())
        return n


class Impl(ast.NodeTransformer):
    """each method delegates to a private helper with the same body"""
    def visit_ClassDef(self, n):
        if any("Enum" in ast.unparse(b) for b in n.bases):
            return n
        out = []
        for m in n.body:
            if isinstance(m, ast.FunctionDef) and m.args.args and m.args.args[0].arg == "self" and not m.decorator_list \
                    and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(m)):
                h = copy.deepcopy(m)
                h.name = "_do_" + m.name.replace("_", "u")
                a = m.args
                call = ast.Call(ast.Attribute(name("self"), h.name, L()),
                                [name(x.arg) for x in a.args[1:]] + ([ast.Starred(name(a.vararg.arg), L())] if a.vararg else []),
                                [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else [])
                m.body = [ast.Expr(call) if m.name == "__init__" else ast.Return(call)]
                out += [h, m]
            else:
                out.append(m)
        n.body = out
        return n


class ModHelper(ast.NodeTransformer):
    """methods delegate to module-level functions placed after the class"""
    def visit_Module(self, t):
        out = []
        for n in t.body:
            out.append(n)
            if isinstance(n, ast.ClassDef) and not any("Enum" in ast.unparse(b) for b in n.bases):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and m.args.args and m.args.args[0].arg == "self" and not m.decorator_list \
                            and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(m)):
                        h = copy.deepcopy(m)
                        h.name = f"_{n.name.lower()}_{m.name.replace('_', 'u')}"
                        h.args.defaults = []
                        h.args.args = h.args.args
                        a = m.args
                        call = ast.Call(name(h.name), [name(x.arg) for x in a.args] + ([ast.Starred(name(a.vararg.arg), L())] if a.vararg else []),
                                        [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else [])
                        m.body = [ast.Expr(call) if m.name == "__init__" else ast.Return(call)]
                        out.append(h)
        t.body = out
        return t


class Closure(ast.NodeTransformer):
    """body moved into a nested function that closes over the parameters (when it rebinds none of them)"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Nonlocal)) and x is not n for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(n)):
            return n
        ps = {a.arg for a in n.args.args} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in ps for x in ast.walk(n)):
            return n
        inner = ast.FunctionDef("work_", ast.arguments([], [], None, [], [], None, []), n.body, [], type_params=[])
        n.body = [inner, ast.Return(ast.Call(name("work_"), [], []))]
        return n


class NoOp(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = ast.parse("_unused = None\nif False:\n    raise RuntimeError('unreachable')\nassert True\ndel _unused").body
        return n


class Sqrt(ast.NodeTransformer):
    """math.sqrt(e) -> (e) ** 0.5"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "sqrt" and isinstance(n.func.value, ast.Name):
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        return n


class Hypot(ast.NodeTransformer):
    """math.sqrt(a ** 2 + b ** 2) / sqrt(a*a + b*b) -> math.hypot(a, b)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "sqrt" and isinstance(n.args[0], ast.BinOp) and isinstance(n.args[0].op, ast.Add):
            def sq(e):
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) and ast.unparse(e.right) in ("2", "2.0"):
                    return e.left
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and ast.unparse(e.left) == ast.unparse(e.right):
                    return e.left
            a, b = sq(n.args[0].left), sq(n.args[0].right)
            if a is not None and b is not None:
                return ast.Call(ast.Attribute(n.func.value, "hypot", L()), [a, b], [])
        return n


class Pow2(ast.NodeTransformer):
    """e ** 2 -> pow(e, 2); e * e -> e ** 2"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow):
            return ast.Call(name("pow"), [n.left, n.right], [])
        if isinstance(n.op, ast.Mult) and ast.unparse(n.left) == ast.unparse(n.right) and not isinstance(n.left, ast.Call):
            return ast.BinOp(n.left, ast.Pow(), ast.Constant(2))
        return n


class TernIf(ast.NodeTransformer):
    """return a if c else b -> if c: return a; return b"""
    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n


class IfTern(ast.NodeTransformer):
    """if c: return a (next) return b -> return a if c else b;  if c: return True; return False -> return bool"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.blk(n.body)
        return n

    def blk(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if (isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and i + 1 < len(b)
                    and isinstance(b[i + 1], ast.Return) and s.body[0].value is not None and b[i + 1].value is not None):
                out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value)))
                return out
            out.append(s)
            i += 1
        if len(out) > 1:
            return self.blk(out) if any(isinstance(x, ast.Return) for x in out[:-1]) else out
        return out


class ElseReturn(ast.NodeTransformer):
    """if c: ...return; rest -> if c: ...return else: rest"""
    def blk(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                s.orelse = self.blk(b[i + 1:])
                return b[:i + 1]
        return b

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.blk(n.body)
        return n


class SingleExit(ast.NodeTransformer):
    """after ElseReturn: every return becomes an assignment, one return at the end (functions without loops)"""
    def visit_FunctionDef(self, n):
        ElseReturn().visit(n)
        if any(isinstance(x, (ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.Yield)) and x is not n for x in ast.walk(n)):
            return n
        if n.name == "__init__":
            return n

        def ends(b):
            return isinstance(b[-1], (ast.Return, ast.Raise)) or (isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and ends(b[-1].orelse))

        def inner(b, last):
            for i, s in enumerate(b):
                if isinstance(s, ast.Return) and not last:
                    return False
                if isinstance(s, ast.If):
                    l2 = last and i == len(b) - 1
                    if not inner(s.body, l2) or not inner(s.orelse, l2):
                        return False
            return True
        if not inner(n.body, True):
            return n

        class R(ast.NodeTransformer):
            def visit_Return(self, r):
                return assign("answer_", r.value or ast.Constant(None))
        R().visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, assign("answer_", ast.Constant(None)))
        n.body.append(ast.Return(name("answer_")))
        return n


class Anf(ast.NodeTransformer):
    """arithmetic subexpressions of assignments/returns named (outermost binop operands, left to right)"""
    k = 0

    def split(self, e, out):
        if isinstance(e, ast.BinOp) and not any(isinstance(x, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.comprehension, ast.NamedExpr)) for x in ast.walk(e)):
            l, r = self.split(e.left, out), self.split(e.right, out)
            Anf.k += 1
            v = f"t{Anf.k}_"
            out.append(assign(v, ast.BinOp(l, e.op, r)))
            return name(v)
        if isinstance(e, (ast.Call, ast.Attribute, ast.Subscript)):
            Anf.k += 1
            v = f"t{Anf.k}_"
            out.append(assign(v, e))
            return name(v)
        return e

    def visit_Return(self, n):
        out = []
        if isinstance(n.value, ast.BinOp):
            n.value = self.split(n.value, out)
        return out + [n]

    def visit_Assign(self, n):
        out = []
        if isinstance(n.value, ast.BinOp):
            n.value = self.split(n.value, out)
        return out + [n]


class Rename(ast.NodeTransformer):
    """local variables renamed"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) and x is not n for x in ast.walk(n)):
            return n
        ps = {a.arg for a in n.args.args} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - ps
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "loc_" + x.id
        return n


class LambdaArith(ast.NodeTransformer):
    """return e -> return (lambda: e)()"""
    def visit_Return(self, n):
        if n.value is None or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(n)):
            return n
        return ast.Return(ast.Call(ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.value), [], []))


class TryFinally(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        n.body = [ast.Try(n.body, [], [], [ast.Pass()])]
        return n


class Walrus(ast.NodeTransformer):
    """x = e; if ...x...: -> if (x := e) ...: only when the test starts with x"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.blk(n.body)
        return n

    def blk(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(b) and isinstance(b[i + 1], ast.If):
                v = s.targets[0].id
                t = b[i + 1].test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == v:
                    t.left = ast.NamedExpr(ast.Name(v, ast.Store()), s.value)
                    i += 1
                    continue
            out.append(s)
            i += 1
        return out


class FromMath(ast.NodeTransformer):
    """import math -> from math import ... as"""
    def visit_Module(self, t):
        used = sorted({x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "math"})
        if not used:
            return t

        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "math":
                    return name("m_" + n.attr)
                return n
        R().visit(t)
        t.body.insert(after_future(t), ast.ImportFrom("math", [ast.alias(u, "m_" + u) for u in used], 0))
        return t


class Operators(ast.NodeTransformer):
    """a - b -> operator.sub(a, b)"""
    M = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv"}

    def visit_Module(self, t):
        self.generic_visit(t)
        t.body.insert(after_future(t), ast.Import([ast.alias("operator", None)]))
        return t

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if type(n.op) in self.M:
            return ast.Call(ast.Attribute(name("operator"), self.M[type(n.op)], L()), [n.left, n.right], [])
        return n


class AnyAll(ast.NodeTransformer):
    """a and b -> all((a, b)) is not lazy; only when operands are comparisons of names/constants"""
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        ok = all(isinstance(v, ast.Compare) and not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp)) for x in ast.walk(v)) for v in n.values)
        if ok:
            return ast.Call(name("all" if isinstance(n.op, ast.And) else "any"), [ast.Tuple(n.values, L())], [])
        return n


class TupleAssign(ast.NodeTransformer):
    """two consecutive simple assignments to names with independent values -> a, b = x, y"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            p = out[-1] if out else None
            if (isinstance(s, ast.Assign) and isinstance(p, ast.Assign) and len(s.targets) == len(p.targets) == 1
                    and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and isinstance(p.targets[0], (ast.Name, ast.Attribute))
                    and ast.unparse(p.targets[0]) not in ast.unparse(s.value) and not any(isinstance(x, ast.Call) for x in ast.walk(s.value))):
                out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], L()))
            else:
                out.append(s)
        n.body = out
        return n


class Match(ast.NodeTransformer):
    """if/else -> match bool(c)"""
    def visit_If(self, n):
        self.generic_visit(n)
        return ast.Match(ast.Call(name("bool"), [n.test], []),
                         [ast.match_case(ast.MatchSingleton(True), None, n.body), ast.match_case(ast.MatchAs(), None, n.orelse or [ast.Pass()])])


class Slots(ast.NodeTransformer):
    """annotations, Final constants, docstrings everywhere"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if not (isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)):
            n.body.insert(0, ast.Expr(ast.Constant("Documented.")))
        return n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return ast.AnnAssign(n.targets[0], name("object"), n.value, 1)
        return n


class Decorated(ast.NodeTransformer):
    """methods wrapped by an identity-like decorator using functools.wraps"""
    def visit_Module(self, t):
        self.generic_visit(t)
        t.body[0:0] = ast.parse("import functools\ndef _traced(f):\n    @functools.wraps(f)\n    def g(*a, **k):\n        return f(*a, **k)\n    return g\n").body
        return t

    def visit_FunctionDef(self, n):
        if n.args.args and n.args.args[0].arg == "self" and not n.decorator_list and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(n)):
            n.decorator_list = [name("_traced")]
        return n


class NotNeg(ast.NodeTransformer):
    """a - b -> -(b - a) for numeric-looking operands in comparisons; e > 0 stays"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add):
            return ast.BinOp(n.left, ast.Add(), n.right)
        return n


class Guard(ast.NodeTransformer):
    """while c: B -> while True: if not c: break; B"""
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


class Comp(ast.NodeTransformer):
    """[f for x in s] -> list(generator); loops of a single append -> extend(generator)"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(name("list"), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and not n.orelse and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call) \
                and isinstance(n.body[0].value.func, ast.Attribute) and n.body[0].value.func.attr == "append":
            c = n.body[0].value
            return ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", L()),
                                     [ast.ListComp(c.args[0], [ast.comprehension(n.target, n.iter, [], 0)])], []))
        return n


def edits(items):
    """replace whole functions: [(file, qualified name or "+", new source)]"""
    import textwrap

    def f(src_dir):
        for fn, qual, new in items:
            p = os.path.join(src_dir, fn)
            s = open(p, newline="").read().replace("\r\n", "\n")
            t = ast.parse(s)
            lines = s.split("\n")
            if qual == "+":
                last = max(n.end_lineno for n in t.body if isinstance(n, (ast.Import, ast.ImportFrom)))
                lines[last:last] = new.split("\n")
            else:
                body, ind = t.body, ""
                *cls, nm = qual.split(".")
                for c in cls:
                    body = next(n for n in body if isinstance(n, ast.ClassDef) and n.name == c).body
                    ind += "    "
                fd = next(n for n in body if isinstance(n, ast.FunctionDef) and n.name == nm)
                a = min([fd.lineno] + [d.lineno for d in fd.decorator_list])
                lines[a - 1:fd.end_lineno] = textwrap.indent(new.strip("\n"), ind).split("\n")
            open(p, "w", newline="").write("\n".join(lines))
    return f


def whole(cls):
    def f(src_dir):
        for fn in sorted(os.listdir(src_dir)):
            if fn.endswith(".py"):
                p = os.path.join(src_dir, fn)
                t = ast.parse(open(p).read())
                t = cls().visit(t)
                ast.fix_missing_locations(t)
                open(p, "w").write(ast.unparse(t) + "\n")
    return f


R = {c.__name__: whole(c) for c in (RetTemp, FlipIf, FlipCmp, NotCmp, Chain, Nest, DeMorgan, CondTemp, While, Enumerate, Impl, ModHelper,
                                    Closure, NoOp, Sqrt, Hypot, Pow2, TernIf, IfTern, ElseReturn, SingleExit, Anf, Rename, LambdaArith,
                                    TryFinally, Walrus, FromMath, Operators, AnyAll, TupleAssign, Match, Slots, Decorated, Guard, Comp)}
try:
    sys.path.insert(0, os.path.join(HERE, "dev"))
    from refactor_edits import EDITS
    R.update({k: edits(v) for k, v in EDITS.items()})
except ImportError:
    pass


def trial(nm, width):
    t = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
    try:
        r = t + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        R[nm](r + "/src/pyrusgeom")
        if os.environ.get("KEEP"):
            shutil.copytree(r + "/src/pyrusgeom", os.environ["KEEP"], dirs_exist_ok=True)
        env = dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1", VP_REPO=r, VP_EVIDENCE=t + "/ev")
        ts = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=r, env=env, capture_output=True, text=True)
        print(f"{nm}: tests {ts.stdout.strip().splitlines()[-1]}", flush=True)
        if ts.returncode:
            print(ts.stdout[-1500:])
        ids = os.environ.get("ONLY", "").split() or ["C%02d" % i for i in range(1, 60) if os.path.exists(f"{HERE}/contracts/c{i:02d}.py")]

        def chk(i):
            c = subprocess.run([sys.executable, HERE + "/check.py", i], cwd=HERE, env=env, capture_output=True, text=True)
            return i, c.returncode, c.stdout
        t0 = time.time()
        und = 0
        with ThreadPoolExecutor(width) as ex:
            for i, rc, out in ex.map(chk, ids):
                last = [l for l in out.splitlines() if l.startswith(i + ": ") and "obligations:" in l]
                if rc:
                    print(f"  !! {nm} {i} exit {rc}: " + "\n     ".join(out.splitlines()[:4])[:900], flush=True)
                else:
                    w = last[0].split()
                    ev = json.load(open(f"{t}/ev/{i}.json"))["coverage"]
                    if ev["discharged"] < ev["obligations"] - ev["refuted"] or ev["undecided_detail"]:
                        print(f"  .. {nm} {i}: {last[0][:160]} {json.dumps(ev['undecided_detail'][:2])[:260]}", flush=True)
        print(f"{nm}: {time.time() - t0:.0f} s", flush=True)
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    for nm in sys.argv[1:] or R:
        trial(nm, int(os.environ.get("WIDTH", "4")))
