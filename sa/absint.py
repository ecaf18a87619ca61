"""Abstract interpreter over the syntax trees of the analysed package.

A forward, interprocedural, flow-sensitive analysis.  There is exactly one
abstract state per program point: the states of the branches of a conditional
are *joined* where they meet (no path is ever enumerated or replayed), and the
join keeps the branch condition as a gate on the values that differ.  Calls are
analysed in the context of the call site.  Nothing of the package is imported
or executed; no solver is involved.
"""
from __future__ import annotations
import ast
import os
import sys
import time
from fractions import Fraction
from . import alg, gates, prims
from .alg import Num
from .gates import Leaf, Node, TooBig
from .values import *
import builtins as _py
PY_BUILTINS = set(dir(_py))

MAX_LOOP = 40
MAX_YIELD = 20          # values followed of a generator that may have more


class More:
    """the last item of the values of a generator of which not all were followed"""
MAX_DEPTH = 90


class Frame:
    __slots__ = ("func", "oid", "returns", "loops", "captured", "globals_", "nonlocals", "yields")

    def __init__(self, func, oid):
        self.func, self.oid = func, oid
        self.returns = []
        self.loops = []
        self.captured = False
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None


class Loop:
    __slots__ = ("breaks", "continues")

    def __init__(self):
        self.breaks, self.continues = [], []


class Obligation:
    __slots__ = ("msg", "line", "bad", "kind", "loc", "values", "pc", "calls")


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv",
          ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
          ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
          ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul"}
CMPOPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
SWAP = {"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}

NUMKEY = Singleton("<number>")


def is_num(v):
    return isinstance(v, (Num, bool))


def as_num(v):
    if isinstance(v, bool):
        return iconst(int(v))
    return v


def local_names(node):
    """names bound in a function body (excluding nested scopes)."""
    out, glob, nonl = set(), set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    targets(sub.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    return out - glob - nonl, glob, nonl


def has_yield(node):
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(visit(c) for c in ast.iter_child_nodes(n))
    return any(visit(s) for s in node.body)


class Program:
    """parsed sources (shared by all contract analyses)."""

    def __init__(self, roots):
        self.roots = roots            # list of (package prefix or '', directory)
        self.trees = {}
        self.bases = {}

    def find(self, name):
        if name.startswith("vp_models."):
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models", name[10:] + ".py")
            return p if os.path.isfile(p) else None
        for prefix, d in self.roots:
            if prefix and not (name == prefix or name.startswith(prefix + ".")):
                continue
            rel = name[len(prefix):].lstrip(".") if prefix else name
            base = os.path.join(d, *rel.split(".")) if rel else d
            for cand in (base + ".py", os.path.join(base, "__init__.py")):
                if os.path.isfile(cand):
                    return cand
        return None

    def attr_bases(self, path):
        """names used as the base of an attribute access in a file (functions with attributes)."""
        r = self.bases.get(path)
        if r is None:
            r = self.bases[path] = set()
            try:
                tree = self.tree(path)
            except (OSError, TypeError, SyntaxError):
                return r
            for x in ast.walk(tree):
                if isinstance(x, ast.Attribute):
                    v = x.value
                    if isinstance(v, ast.Name):
                        r.add(v.id)
                    elif isinstance(v, ast.Attribute):
                        r.add(v.attr)
        return r

    def tree(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            t = ast.parse(src, path)
            if "__dict__" in src or "vars(" in src:
                t = ast.fix_missing_locations(AttrDict().visit(t))
            self.trees[path] = t
        return t


class AttrDict(ast.NodeTransformer):
    """x.__dict__[k] and the like as operations on the attribute of the instance"""
    @staticmethod
    def of(n):
        if isinstance(n, ast.Attribute) and n.attr == "__dict__":
            return n.value
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "vars" and len(n.args) == 1 and not n.keywords:
            return n.args[0]
        return None

    @staticmethod
    def call(n, f, *args):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(f, ast.Load()), n), list(args), []), n)

    def visit_Subscript(self, n):
        x = self.of(n.value)
        self.generic_visit(n)
        if x is None or isinstance(n.slice, ast.Slice) or not isinstance(n.ctx, ast.Load):
            return n
        return self.call(n, "__vp_dict_item__", self.of(n.value), n.slice)

    def visit_Assign(self, n):
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Subscript) and self.of(t.value) is not None:
            self.generic_visit(n)
            return ast.copy_location(ast.Expr(self.call(n, "setattr", self.of(t.value), t.slice, n.value)), n)
        self.generic_visit(n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and self.of(n.comparators[0]) is not None:
            r = self.call(n, "__vp_dict_has__", self.of(n.comparators[0]), n.left)
            return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and not n.keywords and self.of(f.value) is not None and \
                (f.attr, len(n.args)) in (("get", 1), ("get", 2), ("pop", 1), ("pop", 2), ("setdefault", 1), ("setdefault", 2)):
            return self.call(n, f"__vp_dict_{f.attr}__", self.of(f.value), *n.args)
        return n


class Interp:
    def __init__(self, program, budget=300000, deadline=None):
        alg.reset()
        self.m = gates.reset(budget)
        self.program = program
        self.deadline = deadline
        self.next_oid = 1
        self.modules = {}
        self.key_hash = {}          # (dictionary, key) -> hash at insertion
        self.st = None
        self.frames = []
        self.sinks = [[]]
        self.stack = []
        self.obligations = []
        self.unknown = self.m.F
        self.unknown_why = []
        self.effects = []
        self.raise_locs = {}
        self.entered = {}
        self.api_calls = []          # library functions the contract called, in order
        self.callsites = set()
        self.nif = 0
        self.ticks = 0
        self.none = self.m.leaf(None)
        self.classes = {}
        from . import builtins_ as B
        self.B = B
        self.builtins = B.make(self)
        self.st = State(self.m.T, {})
        self.cur = None
        self.global_oids = None

    # ---------------------------------------------------------------- utils
    def leaf(self, v):
        return self.m.leaf(v)

    def simp(self, v, st):
        if isinstance(v, Leaf) or st.pc is self.m.T:
            return v
        return self.m.simplify(v, st.pc)

    def new(self, st, kind, cls, data, tag=None):
        oid = self.next_oid
        self.next_oid += 1
        st.heap[oid] = Obj(kind, cls, data, tag)
        st.own.add(oid)
        return Ref(oid)

    def newlist(self, st, items):
        return self.leaf(self.new(st, "list", None, self.leaf(TupleV(items))))

    def tick(self):
        self.ticks += 1
        if self.deadline and self.ticks % 64 == 0 and time.process_time() > self.deadline:
            raise TooBig("time budget exhausted")

    def loc(self):
        if self.frames:
            f = self.frames[-1].func
            ln = self.stack[-1] if self.stack else 0
            return (f.file if f else "?", f.qual if f else "<module>", ln)
        return ("?", "?", 0)

    # ------------------------------------------------------------- exceptions
    def exc(self, st, pycls, msg=""):
        ref = self.new(st, "exc", ExcClass(pycls), {"args": self.leaf(TupleV([self.leaf(msg)]))})
        d = self.leaf(ref)
        self.raise_locs[ref.oid] = self.loc() + (f"{pycls.__name__}: {msg}",)
        return d

    def raise_if(self, st, cond, pycls, msg=""):
        """raise pycls on the traces where cond holds; continue on the others."""
        m = self.m
        g = m.and_(st.pc, cond)
        if g is m.F:
            return
        s2 = st.clone(g)
        e = self.exc(s2, pycls, msg)
        self.sinks[-1].append((s2, e))
        st.pc = m.and_(st.pc, m.not_(cond))
        if st.pc is m.F:
            raise Dead

    def raise_val(self, st, e):
        self.sinks[-1].append((st.clone(), e))
        st.pc = self.m.F
        raise Dead

    # ------------------------------------------------------------------ merge
    def merge2(self, s1, s2):
        m = self.m
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        pc = m.or_(s1.pc, s2.pc)
        c = m.simplify(s1.pc, pc)
        heap = s1.heap
        h2 = s2.heap
        changed = []
        for oid, o2 in h2.items():
            o1 = heap.get(oid)
            if o1 is None:
                changed.append((oid, o2))
            elif o1 is not o2:
                changed.append((oid, self.merge_obj(c, o1, o2)))
        out = State(pc, dict(heap), set())
        for oid, o in changed:
            out.heap[oid] = o
        return out

    def merge_obj(self, c, o1, o2):
        m = self.m
        if o1.kind != o2.kind:
            raise Unsupported("object kind join")
        if isinstance(o1.data, dict):
            d = {}
            und = self.leaf(UNDEF)
            for k in list(o1.data) + [k for k in o2.data if k not in o1.data]:
                a, b = o1.data.get(k, und), o2.data.get(k, und)
                d[k] = a if a is b else self.mux(c, a, b)
            return Obj(o1.kind, o1.cls, d, o1.tag)
        if o1.kind == "list":
            return Obj("list", o1.cls, self.mux_tuple(c, o1.data, o2.data), o1.tag)
        if o1.kind in ("dict", "set"):
            keys = {}
            for k, p, v in o1.data:
                keys[k.uid] = [k, p, v, m.F, None]
            for k, p, v in o2.data:
                if k.uid in keys:
                    keys[k.uid][3], keys[k.uid][4] = p, v
                else:
                    keys[k.uid] = [k, m.F, None, p, v]
            out = []
            for k, p1, v1, p2, v2 in keys.values():
                v = v1 if v2 is None else v2 if v1 is None else (v1 if v1 is v2 else self.mux(c, v1, v2))
                out.append((k, m.ite(c, p1, p2), v))
            return Obj(o1.kind, o1.cls, tuple(out), o1.tag)
        if o1.kind == "iter":
            return Obj("iter", o1.cls, tuple(self.mux(c, a, b) for a, b in zip(o1.data, o2.data)), o1.tag)
        raise Unsupported("join of " + o1.kind)

    def mux_tuple(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Leaf) and isinstance(b, Leaf) and isinstance(a.v, TupleV) and \
                isinstance(b.v, TupleV) and len(a.v.items) == len(b.v.items):
            return self.leaf(TupleV([x if x is y else self.mux(c, x, y)
                                     for x, y in zip(a.v.items, b.v.items)]))
        return self.m.ite(c, a, b)

    def mux(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Leaf) and isinstance(b, Leaf) and isinstance(a.v, TupleV) and isinstance(b.v, TupleV):
            return self.mux_tuple(c, a, b)
        return self.m.ite(c, a, b)

    def merge_vals(self, outs):
        """outs: list of (state, value) -> (state, value)"""
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            c = self.m.simplify(s.pc, self.m.or_(s.pc, s2.pc))
            nv = v if v is v2 else self.mux(c, v, v2)
            s = self.merge2(s, s2)
            v = nv
        return s, v

    def branch(self, st, alts):
        """alts: list of (guard, fn(state)->DD); joins the results into st."""
        outs = []
        for g, fn in alts:
            pc = self.m.and_(st.pc, g)
            if pc is self.m.F:
                continue
            s = st.clone(pc)
            try:
                v = fn(s)
            except Dead:
                continue
            except Unsupported as e:
                self.give_up(s, e)
                continue
            outs.append((s, v))
        if not outs:
            st.pc = self.m.F
            raise Dead
        s, v = self.merge_vals(outs)
        st.become(s)
        return self.simp(v, st)

    def give_up(self, st, e):
        self.unknown = self.m.or_(self.unknown, st.pc)
        f, q, ln = self.loc()
        self.unknown_why.append(f"{os.path.basename(f)}:{ln} {q}: {e}")
        st.pc = self.m.F

    def split(self, st, dds, fn, key=None):
        """case-split on the distinct (non-numeric) leaves of dds; fn(state, leaves)."""
        m = self.m
        dds = [self.simp(d, st) for d in dds]
        if all(isinstance(d, Leaf) for d in dds):
            return fn(st, [NUMKEY if is_num(d.v) else d.v for d in dds], dds)
        kd = [d if isinstance(d, Leaf) else
              m.map(lambda v: m.leaf(NUMKEY) if is_num(v) else m.leaf(v), d) for d in dds]
        kd = [m.leaf(NUMKEY) if isinstance(d, Leaf) and is_num(d.v) else d for d in kd]
        if all(isinstance(d, Leaf) for d in kd):
            return fn(st, [d.v for d in kd], dds)
        joint = m.applyn(lambda *vs: m.leaf(_Key(vs)), tuple(kd))
        ls = m.leaves_under(joint, st.pc)
        if len(ls) == 1:
            vs = ls[0].v.vs
            return fn(st, list(vs), [d if v is NUMKEY else m.leaf(v) for d, v in zip(dds, vs)])
        alts = []
        for l in ls:
            g = m.where(joint, l)
            vs = l.v.vs

            def run(s, vs=vs):
                return fn(s, list(vs), [self.simp(d, s) if v is NUMKEY else m.leaf(v)
                                        for d, v in zip(dds, vs)])
            alts.append((g, run))
        return self.branch(st, alts)

    # ------------------------------------------------------------- modules
    def import_module(self, st, name):
        mod = self.modules.get(name)
        if mod is not None:
            return mod
        native = self.B.native_module(self, name)
        if native is not None:
            self.modules[name] = native
            return native
        path = self.program.find(name)
        mod = ModuleV()
        mod.name = name
        mod.native = None
        if path is None:
            if name.split(".")[0] == "pyrusgeom":
                raise AnchorMissing(f"module {name} not found")
            if name.split(".")[0] == "contracts":
                raise Unsupported(f"import {name}")
            mod.native, mod.file = {}, None          # an unknown library: every name of it is opaque
            mod.ns = self.new(st, "ns", None, {}).oid
            self.modules[name] = mod
            return mod
        mod.file = path
        mod.ns = self.new(st, "ns", None, {"__name__": self.leaf(name)}).oid
        self.modules[name] = mod
        fr = Frame(None, mod.ns)
        f = FuncV()
        f.node, f.name, f.qual, f.module, f.file = None, name, name, mod, path
        f.closure, f.cls, f.locals = (), None, None
        fr.func = f
        self.frames.append(fr)
        self.stack.append(0)
        try:
            r = self.exec_module(self.program.tree(path).body, st)
        finally:
            self.frames.pop()
            self.stack.pop()
        if r is None:
            raise Unsupported(f"module {name} raises at import")
        return mod

    def exec_module(self, body, st):
        """an unmodelled statement at module level leaves the names it binds opaque."""
        for s in body:
            try:
                self.exec_stmt(s, st)
            except Dead:
                return None
            except Unsupported:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names = [s.name]
                else:
                    names = [x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                    if not isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr)):
                        raise
                for k in names:
                    self.store_name(k, self.leaf(OpaqueV(k)), st)
        return st

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """returns st if some trace falls through, else None."""
        for s in stmts:
            try:
                self.exec_stmt(s, st)
            except Dead:
                return None
            except Unsupported as e:
                self.give_up(st, e)
                return None
            if st.pc is self.m.F:
                return None
        return st

    def exec_stmt(self, n, st):
        self.tick()
        self.stack[-1] = n.lineno
        t = type(n)
        fn = getattr(self, "x_" + t.__name__, None)
        if fn is None:
            raise Unsupported(f"statement {t.__name__}")
        fn(n, st)

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(n.value, st)
            return
        self.eval(n.value, st)

    def do_yield(self, n, st):
        fr = self.frames[-1]
        if isinstance(n, ast.YieldFrom):
            items = self.iterate(st, self.eval(n.value, st))
            lst = st.heap[fr.yields].data
            st.w(fr.yields).data = self.concat(lst, items)
            return
        v = self.eval(n.value, st) if n.value else self.none
        lst = st.heap[fr.yields].data
        st.w(fr.yields).data = self.m.map(lambda t: self.leaf(TupleV(t.items + (v,))), lst)

    def concat(self, a, b):
        return self.m.apply(lambda x, y: self.leaf(TupleV(x.items + y.items)), a, b)

    def x_Pass(self, n, st):
        pass

    def x_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st)

    def x_AugAssign(self, n, st):
        op = BINOPS[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st)
            rhs = self.eval(n.value, st)
            self.assign(t, self.inplace(st, op, cur, rhs), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr_(st, o, t.attr)
            rhs = self.eval(n.value, st)
            self.setattr_(st, o, t.attr, self.inplace(st, op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval(t.slice, st)
            cur = self.getitem(st, o, i)
            rhs = self.eval(n.value, st)
            self.setitem(st, o, i, self.inplace(st, op, cur, rhs))
        else:
            raise Unsupported("augmented target")

    def inplace(self, st, op, a, b):
        def fn(s, vs, ds):
            v = vs[0]
            if isinstance(v, Ref):
                o = s.heap[v.oid]
                if o.kind == "inst":
                    f = self.class_lookup(s, o.cls, f"__i{op}__")
                    if f is not None:
                        r = self.call_method(s, f, ds[0], [ds[1]])
                        return self.split(s, [r], lambda s2, v2, d2:
                                          self.binop(s2, op, ds[0], ds[1]) if v2[0] is NOTIMPL else d2[0])
                if o.kind == "list" and op == "add":
                    s.w(v.oid).data = self.concat(o.data, self.iterate(s, ds[1]))
                    return ds[0]
                if o.kind in ("set",) and op in ("or",):
                    raise Unsupported("set update")
            return self.binop(s, op, ds[0], ds[1])
        return self.split(st, [a, b], fn)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr_(st, self.eval(t.value, st), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            if isinstance(t.slice, ast.Slice):
                sl = self.e_Slice(t.slice, st)
                new = self.iterate(st, v)

                def put(s, vs, ds):
                    if not isinstance(vs[0], Ref) or s.heap[vs[0].oid].kind != "list":
                        raise Unsupported("slice assignment")

                    def one(a, b, k):
                        if k.s not in (None, 1):
                            raise Unsupported("slice assignment")
                        x = list(a.items)
                        x[slice(k.a, k.b)] = b.items
                        return self.leaf(TupleV(x))
                    s.w(vs[0].oid).data = self.m.applyn(one, [self.simp(s.heap[vs[0].oid].data, s),
                                                         self.simp(new, s), self.simp(sl, s)])
                    return self.none
                self.split(st, [o], put)
                return
            i = self.eval(t.slice, st)
            self.setitem(st, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(st, v)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            m = self.m
            if star:
                k = star[0]
                after = n - k - 1
                bad = m.map(lambda x: m.leaf(len(x.items) < n - 1), items)
                self.raise_if(st, bad, ValueError, "not enough values to unpack")
                items = self.simp(items, st)
                for i in range(k):
                    self.assign(t.elts[i], m.map(lambda x: x.items[i] if len(x.items) > i else self.none, items), st)
                mid = m.map(lambda x: self.leaf(TupleV(x.items[k:len(x.items) - after])), items)
                self.assign(t.elts[k].value, self.leaf(self.new(st, "list", None, mid)), st)
                for j in range(after):
                    self.assign(t.elts[k + 1 + j],
                                m.map(lambda x: x.items[len(x.items) - after + j], items), st)
                return
            bad = m.map(lambda x: m.leaf(len(x.items) != n), items)
            self.raise_if(st, bad, ValueError, f"unpack expected {n} values")
            items = self.simp(items, st)
            for i, e in enumerate(t.elts):
                self.assign(e, m.map(lambda x: x.items[i] if len(x.items) == n else self.none, items), st)
        else:
            raise Unsupported("assignment target")

    def x_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, self.leaf(UNDEF), st)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    i = self.e_Slice(t.slice, st)
                else:
                    i = self.eval(t.slice, st)
                self.delitem(st, o, i)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.setattr_(st, o, t.attr, self.leaf(UNDEF))
            else:
                raise Unsupported("del target")

    def x_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else self.none
        self.frames[-1].returns.append((st.clone(), v))
        st.pc = self.m.F
        raise Dead

    def x_If(self, n, st):
        c = self.truth(st, self.eval(n.test, st))
        self.cond_exec(st, c, lambda s: self.exec_block(n.body, s),
                       lambda s: self.exec_block(n.orelse, s))

    def cond_exec(self, st, c, f1, f2):
        m = self.m
        p1 = m.and_(st.pc, c)
        p2 = m.and_(st.pc, m.not_(c))
        if p2 is m.F:
            if f1(st) is None:
                raise Dead
            return
        if p1 is m.F:
            if f2(st) is None:
                raise Dead
            return
        self.nif += 1
        s1 = st.clone(p1)
        s2 = st.clone(p2)
        ln = self.stack[-1]
        r1 = f1(s1)
        self.stack[-1] = ln
        r2 = f2(s2)
        r = self.merge2(r1, r2)
        if r is None:
            st.pc = m.F
            raise Dead
        st.become(r)

    def x_While(self, n, st):
        fr = self.frames[-1]
        loop = Loop()
        fr.loops.append(loop)
        exits = []
        cur = st.clone()
        try:
            for k in range(MAX_LOOP + 1):
                try:
                    c = self.truth(cur, self.eval(n.test, cur))
                except Dead:
                    cur = None
                    break
                m = self.m
                out = m.and_(cur.pc, m.not_(c))
                go = m.and_(cur.pc, c)
                if out is not m.F:
                    exits.append(cur.clone(out))
                if go is m.F:
                    cur = None
                    break
                if k == MAX_LOOP or fr.yields is not None and k == MAX_YIELD and len(fr.loops) == 1:
                    cur.pc = go
                    if fr.yields is None or len(fr.loops) > 1:
                        self.give_up(cur, Unsupported("loop bound"))
                    else:
                        lst = cur.heap[fr.yields].data
                        more = self.leaf(More())
                        cur.w(fr.yields).data = m.map(lambda t: self.leaf(TupleV(t.items + (more,))), lst)
                        fr.returns.append((cur, self.none))
                    cur = None
                    break
                cur.pc = go
                loop.continues = []
                r = self.exec_block(n.body, cur)
                for s in loop.continues:
                    r = self.merge2(r, s)
                if r is None:
                    cur = None
                    break
                cur = r
        finally:
            fr.loops.pop()
        self.loop_end(n, st, exits, loop)

    def loop_end(self, n, st, exits, loop):
        r = None
        for s in exits:
            r = self.merge2(r, s)
        if r is not None and n.orelse:
            r = self.exec_block(n.orelse, r)
        for s in loop.breaks:
            r = self.merge2(r, s)
        if r is None:
            st.pc = self.m.F
            raise Dead
        st.become(r)

    def x_For(self, n, st):
        it = self.eval(n.iter, st)
        # a list may be mutated while iterated: re-read it when it is a plain list
        live = None
        if isinstance(it, Leaf) and isinstance(it.v, Ref) and st.heap[it.v.oid].kind == "list":
            live = it.v.oid
            items = st.heap[live].data
        else:
            items = self.iterate(st, it, True)
        fr = self.frames[-1]
        loop = Loop()
        fr.loops.append(loop)
        exits = []
        cur = st.clone()
        m = self.m
        try:
            k = 0
            while True:
                self.tick()
                if live is not None:
                    items = cur.heap[live].data
                items = self.simp(items, cur)
                more = m.map(lambda t: m.leaf(len(t.items) > k), items)
                go = m.and_(cur.pc, more)
                out = m.and_(cur.pc, m.not_(more))
                if out is not m.F:
                    exits.append(cur.clone(out))
                if go is m.F:
                    break
                if k >= MAX_LOOP * 3:
                    cur.pc = go
                    self.give_up(cur, Unsupported("loop bound"))
                    break
                cur.pc = go
                x = m.map(lambda t: t.items[k] if len(t.items) > k else self.none,
                          self.simp(items, cur))
                if self.beyond(cur, x):
                    break
                loop.continues = []
                try:
                    self.assign(n.target, x, cur)
                    r = self.exec_block(n.body, cur)
                except Dead:
                    r = None
                except Unsupported as e:
                    self.give_up(cur, e)
                    r = None
                for s in loop.continues:
                    r = self.merge2(r, s)
                if r is None:
                    break
                cur = r
                k += 1
        finally:
            fr.loops.pop()
        self.loop_end(n, st, exits, loop)

    def x_Break(self, n, st):
        self.frames[-1].loops[-1].breaks.append(st.clone())
        st.pc = self.m.F
        raise Dead

    def x_Continue(self, n, st):
        self.frames[-1].loops[-1].continues.append(st.clone())
        st.pc = self.m.F
        raise Dead

    def x_FunctionDef(self, n, st):
        f = self.make_func(n, st, n.name)
        v = self.leaf(f)
        for d in reversed(n.decorator_list):
            dv = self.eval(d, st)
            v = self.call(st, dv, [v], {})
        self.store_name(n.name, v, st)

    def make_func(self, n, st, name):
        f = FuncV()
        f.node, f.name = n, name
        fr = self.frames[-1]
        f.module = fr.func.module
        f.file = fr.func.file
        f.cls = None
        f.defaults = [self.eval(d, st) for d in n.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, st) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults)
                        if d is not None}
        if getattr(self, "_class_body", None) and self._class_body[-1][1] == fr.oid:
            f.qual = self._class_body[-1][0] + "." + name
            f.closure = fr.func.closure
            if f.closure:
                for x in self.frames:
                    x.captured = True
        elif fr.oid == fr.func.module.ns:
            f.qual = name
            f.closure = ()
        else:
            f.qual = fr.func.qual + ".<locals>." + name
            f.closure = (fr.oid,) + tuple(fr.func.closure)
            for x in self.frames:
                x.captured = True
        f.attrs = None
        if isinstance(n, ast.FunctionDef) and n.name in self.program.attr_bases(f.file):
            f.attrs = self.new(st, "ns", None, {}).oid
        inf = getattr(n, "_vp_info", None)
        if inf is None:
            inf = n._vp_info = (local_names(n), isinstance(n, ast.FunctionDef) and has_yield(n))
        f.locals = inf[0]
        f.is_gen = inf[1]
        return f

    def desugar_class(self, n, st):
        """NamedTuple classes and plain dataclasses, rewritten as ordinary classes"""
        inf = getattr(n, "_vp_desugared", None)
        if inf is not None:
            return inf
        out = n

        def opaque_name(e):
            try:
                v = self.simp(self.eval(e, st), st)
            except Unsupported:
                return None
            return v.v.name if isinstance(v, Leaf) and isinstance(v.v, OpaqueV) else None
        fields = [s for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)
                  and "ClassVar" not in ast.unparse(s.annotation)]
        if len(n.bases) == 1 and not n.decorator_list and opaque_name(n.bases[0]) == "typing.NamedTuple":
            src = "collections.namedtuple(%r, %r, defaults=(%s))" % (
                n.name, [f.target.id for f in fields],
                "".join(ast.unparse(f.value) + "," for f in fields if f.value is not None))
            base = ast.parse(src).body[0].value
            base.func.value._vp_import = "collections"
            out = ast.ClassDef(name=n.name, bases=[base], keywords=[], decorator_list=[],
                               body=[s for s in n.body if s not in fields] or [ast.Pass()])
        elif len(n.decorator_list) == 1 and not n.bases:
            d = n.decorator_list[0]
            kws = {}
            if isinstance(d, ast.Call) and not d.args and all(
                    k.arg and isinstance(k.value, ast.Constant) for k in d.keywords):
                kws = {k.arg: k.value.value for k in d.keywords}
                d = d.func
            simple = all(f.value is None or isinstance(f.value, (ast.Constant, ast.UnaryOp, ast.Name, ast.BinOp))
                         for f in fields)
            if opaque_name(d) == "dataclasses.dataclass" and simple and set(kws) <= {"frozen", "eq", "slots", "repr"} \
                    and not kws.get("frozen"):
                has = {s.name for s in n.body if isinstance(s, ast.FunctionDef)}
                src = ""
                names = [f.target.id for f in fields]
                if "__init__" not in has:
                    src += "def __init__(self, %s):\n" % ", ".join(
                        f.target.id + ("=" + f.target.id if f.value is not None else "") for f in fields)
                    src += "".join("    self.%s = %s\n" % (x, x) for x in names) or "    pass\n"
                    if "__post_init__" in has:
                        src += "    self.__post_init__()\n"
                if "__eq__" not in has and kws.get("eq", True):
                    t = ["(%s)" % "".join("%s.%s, " % (w, x) for x in names) for w in ("self", "other")]
                    src += ("def __eq__(self, other):\n    if other.__class__ is not self.__class__:\n"
                            "        return NotImplemented\n    return %s == %s\n" % tuple(t))
                out = ast.ClassDef(name=n.name, bases=[], keywords=[], decorator_list=[],
                                   body=list(n.body) + ast.parse(src).body)
        if out is not n:
            old = {id(s) for s in ast.walk(n)}
            for s in ast.walk(out):
                if hasattr(s, "lineno") and id(s) not in old:
                    s.lineno = s.end_lineno = n.lineno
            ast.copy_location(out, n)
            ast.fix_missing_locations(out)
        n._vp_desugared = out
        return out

    def x_ClassDef(self, n, st):
        n = self.desugar_class(n, st)
        bases = []
        for b in n.bases:
            if isinstance(b, ast.Call) and hasattr(getattr(b.func, "value", None), "_vp_import"):
                mod = self.import_module(st, b.func.value._vp_import)
                bases.append(self.call(st, self.module_attr(st, mod, b.func.attr), [self.eval(x, st) for x in b.args],
                                       {k.arg: self.eval(k.value, st) for k in b.keywords}))
            else:
                bases.append(self.eval(b, st))
        bl = []
        for b in bases:
            b = self.simp(b, st)
            if not isinstance(b, Leaf) or not isinstance(b.v, (ClassV, ExcClass, TypeV, OpaqueV)):
                raise Unsupported("computed base class")
            bl.append(b.v)
        c = ClassV()
        c.name = n.name
        fr = self.frames[-1]
        c.qual = n.name
        c.module = fr.func.module
        c.bases = bl
        c.is_enum = any((isinstance(b, TypeV) and b.name in ("Enum", "IntEnum")) or
                        (isinstance(b, ClassV) and b.is_enum) for b in bl)
        c.exc = None
        for b in bl:
            if isinstance(b, ExcClass):
                c.exc = b.py
            elif isinstance(b, ClassV) and b.exc:
                c.exc = b.exc
        for k in n.keywords:
            raise Unsupported("class keyword")
        c.ns = self.new(st, "ns", None, {"__module__": self.leaf(c.module.name)}).oid
        c.mro = self.c3(c)
        f2 = FuncV()
        f2.node, f2.name, f2.qual, f2.module, f2.file = None, n.name, n.name, c.module, fr.func.file
        f2.cls = None
        f2.locals = None
        f2.closure = fr.func.closure if fr.oid == fr.func.module.ns else (fr.oid,) + tuple(fr.func.closure)
        nf = Frame(f2, c.ns)
        self.frames.append(nf)
        self.stack.append(n.lineno)
        if not hasattr(self, "_class_body"):
            self._class_body = []
        self._class_body.append((n.name, c.ns))
        self._auto = 0
        try:
            for s in n.body:
                self.exec_stmt(s, st)
        finally:
            self.frames.pop()
            self.stack.pop()
            self._class_body.pop()
        ns = st.w(c.ns).data
        for k, v in list(ns.items()):
            if isinstance(v, Leaf) and isinstance(v.v, FuncV) and v.v.cls is None:
                v.v.cls = c
            elif isinstance(v, Leaf) and isinstance(v.v, Wrapper):
                for g in (v.v.func, v.v.fset):
                    if isinstance(g, FuncV):
                        g.cls = c
        if c.is_enum:
            for k, v in list(ns.items()):
                if k.startswith("_") or not isinstance(v, Leaf) or isinstance(v.v, (FuncV, Wrapper)):
                    continue
                r = self.new(st, "inst", c, {"name": self.leaf(k), "value": v, "_value_": v, "_name_": self.leaf(k)})
                ns[k] = self.leaf(r)
        v = self.leaf(c)
        for d in reversed(n.decorator_list):
            v = self.call(st, self.eval(d, st), [v], {})
        self.store_name(n.name, v, st)

    def c3(self, c):
        seqs = [list(b.mro) for b in c.bases if isinstance(b, ClassV)]
        seqs.append([b for b in c.bases if isinstance(b, ClassV)])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("mro")
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def x_Import(self, n, st):
        for a in n.names:
            mod = self.import_module(st, a.name)
            if a.asname:
                self.store_name(a.asname, self.leaf(mod), st)
            else:
                top = a.name.split(".")[0]
                if top == a.name:
                    self.store_name(top, self.leaf(mod), st)
                else:
                    self.store_name(top, self.leaf(self.import_module(st, top)), st)

    def x_ImportFrom(self, n, st):
        if n.module == "__future__":
            return
        name = n.module or ""
        if n.level:
            parts = self.frames[-1].func.module.name.split(".")
            base = parts[:len(parts) - n.level] if not self._is_pkg() else parts[:len(parts) - n.level + 1]
            name = ".".join(base + ([n.module] if n.module else []))
        mod = self.import_module(st, name)
        for a in n.names:
            if a.name == "*":
                ns = mod.native if mod.native is not None else st.heap[mod.ns].data
                for k, v in list(ns.items()):
                    if not k.startswith("_"):
                        self.store_name(k, v, st)
                continue
            v = self.module_attr(st, mod, a.name)
            if v is None:
                try:
                    v = self.leaf(self.import_module(st, name + "." + a.name))
                except (Unsupported, AnchorMissing):
                    v = None
            if v is None:
                if mod.native is None and self.frames[-1].func.file and \
                        self.frames[-1].func.module.name.startswith("contracts"):
                    raise AnchorMissing(f"{name}.{a.name}")
                self.raise_if(st, self.m.T, ImportError, f"cannot import name {a.name} from {name}")
            self.store_name(a.asname or a.name, v, st)

    def _is_pkg(self):
        return (self.frames[-1].func.file or "").endswith("__init__.py")

    def module_attr(self, st, mod, name):
        if mod.native is not None:
            v = mod.native.get(name)
            if v is None and mod.name != "vp":
                if self.program.find("vp_models." + mod.name):
                    v = self.module_attr(st, self.import_module(st, "vp_models." + mod.name), name)
                if v is None:
                    v = self.leaf(OpaqueV(f"{mod.name}.{name}"))
            return v
        return st.heap[mod.ns].data.get(name)

    def x_Raise(self, n, st):
        if n.exc is None:
            cur = getattr(self, "_handling", [])
            if not cur:
                self.raise_if(st, self.m.T, RuntimeError, "No active exception to reraise")
            self.raise_val(st, cur[-1])
        v = self.eval(n.exc, st)

        def fn(s, vs, ds):
            e = vs[0]
            if isinstance(e, ExcClass) or isinstance(e, ClassV):
                d = self.call(s, ds[0], [], {})
            elif isinstance(e, Ref) and s.heap[e.oid].kind in ("exc", "inst"):
                d = ds[0]
            else:
                self.raise_if(s, self.m.T, TypeError, "exceptions must derive from BaseException")
                return self.none
            if isinstance(d, Leaf) and isinstance(d.v, Ref):
                nm = s.heap[d.v.oid].cls
                self.raise_locs.setdefault(d.v.oid, self.loc() + (f"raise {getattr(nm, 'name', nm)}",))
            self.raise_val(s, d)
        self.split(st, [v], fn)

    def x_Assert(self, n, st):
        c = self.truth(st, self.eval(n.test, st))
        self.raise_if(st, self.m.not_(c), AssertionError, "assertion")

    def exc_matches(self, st, e, handler):
        """does exception leaf e match handler value (leaf)?"""
        o = st.heap[e.oid]
        if isinstance(handler, TupleV):
            return any(self.exc_matches(st, e, h.v) for h in handler.items if isinstance(h, Leaf))
        if isinstance(handler, ExcClass):
            if isinstance(o.cls, ExcClass):
                return issubclass(o.cls.py, handler.py)
            return o.cls.exc is not None and issubclass(o.cls.exc, handler.py)
        if isinstance(handler, ClassV):
            return isinstance(o.cls, ClassV) and handler in o.cls.mro
        raise Unsupported("except type")

    def x_Try(self, n, st):
        fr = self.frames[-1]
        nret = len(fr.returns)
        nbr = [(len(l.breaks), len(l.continues)) for l in fr.loops]
        self.sinks.append([])
        depth = len(self.frames)
        s = st.clone()
        r = self.exec_block(n.body, s)
        raised = self.sinks.pop()
        if r is not None and n.orelse:
            r = self.exec_block(n.orelse, r)
        if n.finalbody:
            self.sinks.append([])
        rest = []
        for hs, e in raised:
            pend = [(hs, e)]
            for h in n.handlers:
                nxt = []
                for s2, e2 in pend:
                    if h.type is None:
                        r = self.merge2(r, self.do_handler(h, s2, e2))
                        continue
                    tv = self.eval(h.type, s2)
                    tl = tv.v if isinstance(tv, Leaf) else None
                    ls = self.m.leaves_under(e2, s2.pc)
                    hit = self.m.F
                    for l in ls:
                        if self.exc_matches(s2, l.v, tl):
                            hit = self.m.or_(hit, self.m.where(e2, l))
                    yes = self.m.and_(s2.pc, hit)
                    no = self.m.and_(s2.pc, self.m.not_(hit))
                    if no is not self.m.F:
                        nxt.append((s2.clone(no), e2))
                    if yes is not self.m.F:
                        s3 = s2.clone(yes)
                        r = self.merge2(r, self.do_handler(h, s3, e2))
                pend = nxt
            rest.extend(pend)
        if n.finalbody:
            rest.extend(self.sinks.pop())
            r = self.exec_block(n.finalbody, r) if r is not None else None
            # pending returns of this frame made inside the try run the finally block
            new = fr.returns[nret:]
            del fr.returns[nret:]
            for s2, v in new:
                s3 = self.exec_block(n.finalbody, s2)
                if s3 is not None:
                    fr.returns.append((s3, v))
            if any((len(l.breaks), len(l.continues)) != b for l, b in zip(fr.loops, nbr)):
                raise Unsupported("break through finally")
            rest2 = []
            for s2, e in rest:
                s3 = self.exec_block(n.finalbody, s2)
                if s3 is not None:
                    rest2.append((s3, e))
            rest = rest2
        self.sinks[-1].extend(rest)
        if r is None:
            st.pc = self.m.F
            raise Dead
        st.become(r)

    def do_handler(self, h, s, e):
        if not hasattr(self, "_handling"):
            self._handling = []
        self._handling.append(e)
        try:
            if h.name:
                self.store_name(h.name, e, s)
            return self.exec_block(h.body, s)
        finally:
            self._handling.pop()

    def x_Global(self, n, st):
        self.frames[-1].globals_.update(n.names)

    def x_Nonlocal(self, n, st):
        self.frames[-1].nonlocals.update(n.names)

    def x_With(self, n, st):
        """with E as T: B, written out as its definition in the language reference"""
        d = self._with.get(id(n)) if hasattr(self, "_with") else None
        if d is None:
            if not hasattr(self, "_with"):
                self._with = {}
            body = n.body
            for it_ in reversed(n.items):
                k = len(self._with)
                mgr, hit, err = f"$mgr{k}_{n.lineno}_{n.col_offset}", f"$hit{k}", f"$err{k}"
                L, S = ast.Load(), ast.Store()
                nm = lambda i: ast.Name(i, ast.Load())
                enter = ast.Call(ast.Attribute(nm(mgr), "__enter__", L), [], [])

                def leave(*a):
                    return ast.Call(ast.Attribute(nm(mgr), "__exit__", L), list(a), [])
                none = ast.Constant(None)
                body = [ast.Assign([ast.Name(mgr, S)], it_.context_expr),
                        ast.Assign([it_.optional_vars], enter) if it_.optional_vars is not None else ast.Expr(enter),
                        ast.Assign([ast.Name(hit, S)], ast.Constant(True)),
                        ast.Try([ast.Try(body, [ast.ExceptHandler(nm("BaseException"), err, [
                            ast.Assign([ast.Name(hit, S)], ast.Constant(False)),
                            ast.If(ast.UnaryOp(ast.Not(), leave(none, nm(err), none)), [ast.Raise(None, None)], [])])], [], [])],
                            [], [], [ast.If(nm(hit), [ast.Expr(leave(none, none, none))], [])])]
                for x in body:
                    ast.copy_location(x, n)
                    ast.fix_missing_locations(x)
                self._with[k, 0] = body
            d = self._with[id(n)] = (n, body)
        if self.exec_block(d[1], st) is None:
            raise Dead

    def x_Match(self, n, st):
        subj = self.eval(n.subject, st)
        self._match_cases(n.cases, subj, st)

    def _match_cases(self, cases, subj, st):
        if not cases:
            return
        c0 = cases[0]
        cond = self.match_pat(c0.pattern, subj, st)
        if c0.guard is not None:
            s2 = st
            g = self.branch(st, [(cond, lambda s: self.truth(s, self.eval(c0.guard, s))),
                                 (self.m.not_(cond), lambda s: self.m.F)])
            cond = self.m.and_(cond, g)

        def rest(s):
            try:
                self._match_cases(cases[1:], subj, s)
            except Dead:
                return None
            except Unsupported as e:
                self.give_up(s, e)
                return None
            return s
        self.cond_exec(st, cond, lambda s: self.exec_block(c0.body, s), rest)

    def match_pat(self, p, subj, st):
        m = self.m
        if isinstance(p, ast.MatchValue):
            return self.compare(st, "eq", subj, self.eval(p.value, st), as_bool=True)
        if isinstance(p, ast.MatchSingleton):
            return self.is_(st, subj, self.leaf(p.value))
        if isinstance(p, ast.MatchAs):
            c = m.T if p.pattern is None else self.match_pat(p.pattern, subj, st)
            if p.name:
                self.store_name(p.name, subj, st)
            return c
        if isinstance(p, ast.MatchOr):
            c = m.F
            for q in p.patterns:
                c = m.or_(c, self.match_pat(q, subj, st))
            return c
        def guarded(s, c, f):
            c = self.simp(c, s)
            if m.and_(s.pc, c) is m.F:
                return m.F
            if m.and_(s.pc, m.not_(c)) is m.F:
                return f(s)
            return self.branch(s, [(c, f), (m.not_(c), lambda s2: m.F)])

        def every(s, parts):
            """parts: [(pattern, fn(state) -> subject)], matched left to right"""
            if not parts:
                return m.T
            q, get = parts[0]
            return guarded(s, self.match_pat(q, get(s), s), lambda s2: every(s2, parts[1:]))
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, st)
            one = isinstance(cls, Leaf) and isinstance(cls.v, TypeV) and cls.v.name in ("int", "float", "str", "bool", "list", "tuple", "dict")
            if p.patterns and not (one and len(p.patterns) == 1):
                raise Unsupported("positional class pattern")
            parts = [(q, lambda s: self.simp(subj, s)) for q in p.patterns]
            parts += [(q, lambda s, a=a: self.getattr_(s, self.simp(subj, s), a)) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]
            return guarded(st, self.isinstance_(st, subj, cls), lambda s: every(s, parts))
        if isinstance(p, ast.MatchSequence):
            def seq(x):
                if isinstance(x, TupleV):
                    return m.T
                if isinstance(x, Ref):
                    if st.heap[x.oid].kind == "inst" and self.class_lookup(st, st.heap[x.oid].cls, "__getitem__") is not None:
                        raise Unsupported("sequence pattern on an instance")
                    return m.leaf(st.heap[x.oid].kind == "list")
                self.opaque(x, st=st)
                return m.F
            isseq = m.map(seq, self.simp(subj, st))
            n = len(p.patterns)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]

            def items(s):
                return self.simp(self.iterate(s, self.simp(subj, s)), s)

            def body(s):
                its = items(s)
                if not star:
                    ok = m.map(lambda x: m.leaf(len(x.items) == n), its)
                    parts = [(q, lambda s2, i=i: m.map(lambda x: x.items[i] if len(x.items) == n else self.none, self.simp(its, s2)))
                             for i, q in enumerate(p.patterns)]
                else:
                    k = star[0]
                    after = n - k - 1
                    ok = m.map(lambda x: m.leaf(len(x.items) >= n - 1), its)
                    parts = [(q, lambda s2, i=i: m.map(lambda x: x.items[i] if len(x.items) >= n - 1 else self.none, self.simp(its, s2)))
                             for i, q in enumerate(p.patterns[:k])]
                    if p.patterns[k].name:
                        def mid(s2):
                            d = m.map(lambda x: self.leaf(TupleV(x.items[k:len(x.items) - after])), self.simp(its, s2))
                            return self.leaf(self.new(s2, "list", None, d))
                        parts.append((ast.MatchAs(None, p.patterns[k].name), mid))
                    parts += [(q, lambda s2, j=j: m.map(lambda x: x.items[len(x.items) - after + j] if len(x.items) >= n - 1 else self.none, self.simp(its, s2)))
                              for j, q in enumerate(p.patterns[k + 1:])]
                return guarded(s, ok, lambda s2: every(s2, parts))
            return guarded(st, isseq, body)
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            def ismap(x):
                if isinstance(x, Ref):
                    return m.leaf(st.heap[x.oid].kind == "dict")
                self.opaque(x, st=st)
                return m.F
            keys = [self.eval(k, st) for k in p.keys]

            def have(s, i):
                if i == len(keys):
                    return every(s, [(q, lambda s2, k=k: self.getitem(s2, self.simp(subj, s2), k)) for k, q in zip(keys, p.patterns)])
                return guarded(s, self.truth(s, self.contains(s, self.simp(subj, s), keys[i])), lambda s2: have(s2, i + 1))
            return guarded(st, m.map(ismap, self.simp(subj, st)), lambda s: have(s, 0))
        raise Unsupported("match pattern")

    # ---------------------------------------------------------------- names
    def store_name(self, name, v, st):
        fr = self.frames[-1]
        if name in fr.globals_:
            st.w(fr.func.module.ns).data[name] = v
            return
        if name in fr.nonlocals:
            for oid in fr.func.closure:
                if name in st.heap[oid].data:
                    st.w(oid).data[name] = v
                    return
            raise Unsupported("nonlocal")
        st.w(fr.oid).data[name] = v

    def load_name(self, name, st):
        fr = self.frames[-1]
        d = st.heap[fr.oid].data
        v = None
        if name not in fr.globals_:
            v = d.get(name)
            if v is None:
                loc = fr.func.locals
                if loc is not None and fr.oid != fr.func.module.ns and name in loc[0] and name not in fr.nonlocals:
                    v = self.leaf(UNDEF)
            if v is None:
                for oid in fr.func.closure:
                    o = st.heap.get(oid)
                    if o is not None and name in o.data:
                        v = o.data[name]
                        break
        if v is None:
            v = st.heap[fr.func.module.ns].data.get(name)
        if v is None:
            v = self.builtins.get(name)
        if v is None and name in PY_BUILTINS:
            v = self.leaf(OpaqueV(name))                 # a built-in that is not modelled
        if v is None:
            self.raise_if(st, self.m.T, NameError, f"name '{name}' is not defined")
        return self.defined(st, v, NameError, f"local variable '{name}' referenced before assignment")

    def defined(self, st, v, exc, msg):
        if isinstance(v, Leaf):
            if v.v is UNDEF:
                self.raise_if(st, self.m.T, exc, msg)
            return v
        m = self.m
        u = m.leaf(UNDEF)
        if any(l is u for l in m.leaves_under(v, st.pc)):
            self.raise_if(st, m.where(v, u), exc, msg)
            v = self.simp(v, st)
            # an unreachable UNDEF leaf may survive simplification
            if any(l is u for l in m.leaves_under(v)):
                v = m.map(lambda x: self.none if x is UNDEF else m.leaf(x), v)
        return v

    # ----------------------------------------------------------- expressions
    def eval(self, n, st):
        self.tick()
        t = type(n)
        fn = getattr(self, "e_" + t.__name__, None)
        if fn is None:
            raise Unsupported(f"expression {t.__name__}")
        v = fn(n, st)
        if isinstance(v, Node) and st.pc is not self.m.T:
            v = self.m.simplify(v, st.pc)
        return v

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return self.leaf(v)
        if isinstance(v, int):
            return self.leaf(iconst(v))
        if isinstance(v, float):
            if v in (float("inf"),):
                return self.leaf(InfV(1))
            return self.leaf(alg.num(v))
        if v is Ellipsis:
            return self.leaf(ELLIPSIS)
        raise Unsupported("constant")

    def e_Name(self, n, st):
        return self.load_name(n.id, st)

    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        return self.getattr_(st, o, n.attr)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.store_name(n.target.id, v, st)
        return v

    def e_Tuple(self, n, st):
        return self.build_seq(n, st)

    def build_seq(self, n, st):
        if not any(isinstance(e, ast.Starred) for e in n.elts):
            return self.leaf(TupleV([self.eval(e, st) for e in n.elts]))
        acc = self.leaf(TupleV([]))
        for e in n.elts:
            if isinstance(e, ast.Starred):
                acc = self.concat(acc, self.iterate(st, self.eval(e.value, st)))
            else:
                acc = self.concat(acc, self.leaf(TupleV([self.eval(e, st)])))
        return acc

    def e_List(self, n, st):
        return self.leaf(self.new(st, "list", None, self.build_seq(n, st)))

    def e_Set(self, n, st):
        r = self.new(st, "set", None, ())
        for e in n.elts:
            self.dict_set(st, r.oid, self.eval(e, st), self.none)
        return self.leaf(r)

    def e_Dict(self, n, st):
        r = self.new(st, "dict", None, ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                def more(s, vs, ds):
                    if not (isinstance(vs[0], Ref) and s.heap[vs[0].oid].kind == "dict"):
                        raise Unsupported("dict unpack")
                    for kk, p, vv in s.heap[vs[0].oid].data:
                        if p is not self.m.T and self.m.and_(s.pc, self.m.not_(p)) is not self.m.F:
                            raise Unsupported("dict unpack")
                        self.dict_set(s, r.oid, kk, vv)
                    return self.none
                self.split(st, [self.eval(v, st)], more)
                continue
            kk = self.eval(k, st)
            self.dict_set(st, r.oid, kk, self.eval(v, st))
        return self.leaf(r)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st)
                    if not (isinstance(sp, Leaf) and isinstance(sp.v, str)):
                        raise Unsupported("format spec")
                    spec = sp.v
                if v.conversion == 114:
                    x = self.to_str(st, x, repr_=True)
                parts.append((x, spec))
        return self.fmt(st, parts)

    def fmt(self, st, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(self.leaf(p))
            elif p[1]:
                out.append(self.m.map(lambda v: self._fmt1(v, p[1]), p[0]))
            else:
                out.append(self.to_str(st, p[0]))
        acc = self.leaf("")
        for o in out:
            acc = self.m.apply(lambda a, b: self.leaf(str_cat(a, b)), acc, o)
        return acc

    def _fmt1(self, v, spec):
        if isinstance(v, str):
            return self.leaf(format(v, spec))
        if is_num(v) and as_num(v).is_const():
            v = as_num(v)
            c = v.const()
            return self.leaf(format(int(c) if isinstance(v, INum) else float(c), spec))
        return self.leaf(StrX([(self.leaf(v), spec)]))

    def to_str(self, st, x, repr_=False):
        def fn(s, vs, ds):
            v = vs[0]
            if v is NUMKEY:
                def one(z):
                    if isinstance(z, bool):
                        return self.leaf(str(z))
                    if z.is_const():
                        c = z.const()
                        return self.leaf(str(int(c)) if isinstance(z, INum) and c.denominator == 1 else repr(float(c)))
                    return self.leaf(StrX([(self.leaf(z), "")]))
                return self.m.map(one, ds[0])
            if isinstance(v, str):
                return self.leaf(repr(v)) if repr_ else ds[0]
            if v is None:
                return self.leaf("None")
            if isinstance(v, StrX):
                return ds[0]
            if isinstance(v, Ref) and s.heap[v.oid].kind == "inst":
                o = s.heap[v.oid]
                for nm in (("__repr__",) if repr_ else ("__str__", "__repr__")):
                    f = self.class_lookup(s, o.cls, nm)
                    if f is not None:
                        r = self.call_method(s, f, ds[0], [])
                        bad = self.m.map(lambda q: self.leaf(not isinstance(q, (str, StrX))), r)
                        self.raise_if(s, bad, TypeError, f"{nm} returned non-string")
                        return self.simp(r, s)
                return self.leaf(StrX([(ds[0], "obj")]))
            if isinstance(v, (TupleV,)) or isinstance(v, Ref) and s.heap[v.oid].kind == "list":
                tup = isinstance(v, TupleV)

                def sequence(s2, ws, _):
                    acc = self.leaf("(" if tup else "[")
                    for i, it in enumerate(ws[0].items):
                        if i:
                            acc = self.m.map(lambda a: self.leaf(str_cat(a, ", ")), acc)
                        t = self.to_str(s2, it, repr_=True)
                        acc = self.m.apply(lambda a, b: self.leaf(str_cat(a, b)), acc, t)
                    end = (",)" if len(ws[0].items) == 1 else ")") if tup else "]"
                    return self.m.map(lambda a: self.leaf(str_cat(a, end)), acc)
                return self.split(s, [self.leaf(v) if tup else s.heap[v.oid].data], sequence)
            if isinstance(v, Ref) and s.heap[v.oid].kind == "exc":
                return self.leaf(StrX([(ds[0], "exc")]))
            return self.leaf(StrX([(ds[0], "obj")]))
        return self.split(st, [x], fn)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(st, BINOPS[type(n.op)], a, b)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return self.m.not_(self.truth(st, self.eval(n.operand, st)))
        return self.unary(st, {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(n.op)], self.eval(n.operand, st))

    def unary(self, st, nm, a):
        def fn(s, vs, ds):
            v = vs[0]
            if v is NUMKEY:
                if nm == "neg":
                    return self.m.map(lambda z: self.leaf(self.typed(alg.neg(as_num(z)), as_num(z))), ds[0])
                if nm == "pos":
                    return self.m.map(lambda z: self.leaf(as_num(z)), ds[0])
                raise Unsupported("~")
            if isinstance(v, InfV):
                return self.leaf(InfV(-v.sg if nm == "neg" else v.sg))
            if isinstance(v, Ref) and s.heap[v.oid].kind == "inst":
                f = self.class_lookup(s, s.heap[v.oid].cls, f"__{nm}__")
                if f is not None:
                    return self.call_method(s, f, ds[0], [])
            self.opaque(v, st=s)
            self.raise_if(s, self.m.T, TypeError, f"bad operand type for unary {nm}")
        return self.split(st, [a], fn)

    def typed(self, r, *ops):
        return mkint(r) if all(isinstance(o, INum) for o in ops) else \
            (Num(r.n, r.den) if isinstance(r, INum) else r)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def rec(i, s):
            v = self.eval(n.values[i], s)
            if i == len(n.values) - 1:
                return v
            t = self.truth(s, v)
            go = t if isand else self.m.not_(t)
            if self.m.and_(s.pc, go) is self.m.F:
                return v
            if self.m.and_(s.pc, self.m.not_(go)) is self.m.F:
                return rec(i + 1, s)
            return self.branch(s, [(go, lambda s2: rec(i + 1, s2)),
                                   (self.m.not_(go), lambda s2: self.simp(v, s2))])
        return rec(0, st)

    def e_IfExp(self, n, st):
        c = self.truth(st, self.eval(n.test, st))
        m = self.m
        if m.and_(st.pc, m.not_(c)) is m.F:
            return self.eval(n.body, st)
        if m.and_(st.pc, c) is m.F:
            return self.eval(n.orelse, st)
        return self.branch(st, [(c, lambda s: self.eval(n.body, s)),
                                (m.not_(c), lambda s: self.eval(n.orelse, s))])

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)

        def rec(i, left, s):
            right = self.eval(n.comparators[i], s)
            r = self.cmp_op(s, n.ops[i], left, right)
            if i == len(n.ops) - 1:
                return r
            t = self.truth(s, r)
            if self.m.and_(s.pc, t) is self.m.F:
                return r
            if self.m.and_(s.pc, self.m.not_(t)) is self.m.F:
                return rec(i + 1, right, s)
            return self.branch(s, [(t, lambda s2: rec(i + 1, right, s2)),
                                   (self.m.not_(t), lambda s2: self.simp(r, s2))])
        return rec(0, left, st)

    def cmp_op(self, st, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(st, a, b)
        if isinstance(op, ast.IsNot):
            return self.m.not_(self.is_(st, a, b))
        if isinstance(op, ast.In):
            return self.contains(st, b, a)
        if isinstance(op, ast.NotIn):
            return self.m.not_(self.truth(st, self.contains(st, b, a)))
        return self.compare(st, CMPOPS[type(op)], a, b)

    def is_(self, st, a, b):
        def f(x, y):
            if isinstance(x, Num) and isinstance(y, Num):
                raise Unsupported("identity of numbers")
            if isinstance(x, TupleV) and isinstance(y, TupleV):
                raise Unsupported("identity of tuples")
            if isinstance(x, bool) or isinstance(y, bool):
                return self.leaf(isinstance(x, bool) and isinstance(y, bool) and x == y)
            if isinstance(x, TypeV) and isinstance(y, TypeV):
                return self.leaf(x.name == y.name)
            return self.leaf(type(x) is type(y) and x == y)
        return self.m.apply(f, self.simp(a, st), self.simp(b, st))

    # -- numbers ------------------------------------------------------------
    def num_bin(self, st, op, a, b):
        m = self.m
        if op in ("truediv", "floordiv", "mod"):
            z = m.map(lambda y: m.map(lambda s: m.leaf(s == 0), gates.sign_num(as_num(y))), b)
            self.raise_if(st, z, ZeroDivisionError, "division by zero")
            a, b = self.simp(a, st), self.simp(b, st)
        if op == "pow":
            return self.num_pow(st, a, b)

        def f(x, y):
            x, y = as_num(x), as_num(y)
            if op == "add":
                r = alg.add(x, y)
            elif op == "sub":
                r = alg.sub(x, y)
            elif op == "mul":
                r = alg.mul(x, y)
            elif op == "truediv":
                if alg.is_zero(y):
                    return self.leaf(alg.num(0))
                r = alg.div(x, y)
                return prims.leaf(r)
            elif op == "mod":
                return m.map(lambda q: m.leaf(self.typed(q, x, y)), prims.mod_(x, y))
            elif op == "floordiv":
                return m.map(lambda q: m.leaf(self.typed(q, x, y)), prims.floordiv_(x, y))
            else:
                if op in ("and", "or", "xor", "lshift", "rshift") and x.is_const() and y.is_const() \
                        and isinstance(x, INum) and isinstance(y, INum):
                    i, j = int(x.const()), int(y.const())
                    return self.leaf(iconst({"and": i & j, "or": i | j, "xor": i ^ j}[op]
                                            if op in ("and", "or", "xor") else
                                            (i << j if op == "lshift" else i >> j)))
                raise Unsupported("bit operation")
            return prims.leaf(self.typed(r, x, y))
        return m.apply(f, a, b)

    def num_pow(self, st, a, b):
        m = self.m

        def bad(x, y):
            x, y = as_num(x), as_num(y)
            sx = gates.sign_num(x)
            if y.is_const():
                e = y.const()
                if e.denominator == 1:
                    if e >= 0:
                        return m.F
                    return m.map(lambda s: m.leaf(s == 0), sx)
                return m.map(lambda s: m.leaf(s < 0 or (s == 0 and e < 0)), sx)
            iv = alg.num_iv(x)
            if iv.pos():
                return m.F
            integer = not y.den and all(alg.CTX.gens[g].integer for g in y.n.gens())
            sy = gates.sign_num(y)
            return m.apply(lambda s, t: m.leaf((s == 0 and t < 0) or (s < 0 and not integer)), sx, sy)
        z = m.apply(bad, a, b)
        self.raise_if(st, z, ZeroDivisionError, "0 to a negative power / fractional power of a negative number")
        a, b = self.simp(a, st), self.simp(b, st)

        def f(x, y):
            x, y = as_num(x), as_num(y)
            r = prims.pow_(x, y)
            if isinstance(x, INum) and isinstance(y, INum) and y.is_const() and y.const() >= 0:
                return m.map(lambda q: m.leaf(mkint(q)), r)
            return r
        return m.apply(f, a, b)

    def num_cmp(self, op, a, b):
        m = self.m
        test = {"eq": lambda s: s == 0, "ne": lambda s: s != 0, "lt": lambda s: s < 0,
                "le": lambda s: s <= 0, "gt": lambda s: s > 0, "ge": lambda s: s >= 0}[op]

        def f(x, y):
            d = alg.sub(as_num(x), as_num(y))
            prims.guard(d)
            return m.map(lambda s: m.leaf(test(s)), gates.sign_num(d))
        return m.apply(f, a, b)

    # -- operators with dispatch ---------------------------------------------
    def binop(self, st, op, a, b):
        def fn(s, vs, ds):
            x, y = vs
            if x is NUMKEY and y is NUMKEY:
                return self.num_bin(s, op, ds[0], ds[1])
            xi = isinstance(x, Ref) and s.heap[x.oid].kind == "inst"
            yi = isinstance(y, Ref) and s.heap[y.oid].kind == "inst"
            if xi or yi:
                return self.dunder(s, op, x if xi else None, y if yi else None, ds)
            if isinstance(x, InfV) or isinstance(y, InfV):
                return self.inf_bin(s, op, x, y, ds)
            if op == "add":
                if isinstance(x, (str, StrX)) and isinstance(y, (str, StrX)):
                    return self.leaf(str_cat(x, y))
                if isinstance(x, TupleV) and isinstance(y, TupleV):
                    return self.leaf(TupleV(x.items + y.items))
                if self.kind(s, x) == "list" and self.kind(s, y) == "list":
                    return self.leaf(self.new(s, "list", None,
                                              self.concat(s.heap[x.oid].data, s.heap[y.oid].data)))
            if op == "mul":
                if y is NUMKEY and (self.kind(s, x) == "list" or isinstance(x, (TupleV, str))):
                    k = self.concrete_int(s, ds[1])
                    if isinstance(x, str):
                        return self.leaf(x * k)
                    t = x if isinstance(x, TupleV) else None
                    if t is None:
                        d = s.heap[x.oid].data
                        return self.leaf(self.new(s, "list", None, self.m.map(
                            lambda q: self.leaf(TupleV(q.items * k)), d)))
                    return self.leaf(TupleV(t.items * k))
            if op == "mod" and isinstance(x, str):
                return self.percent(s, x, ds[1])
            if op in ("sub", "and", "or", "xor") and self.kind(s, x) == "set" == self.kind(s, y):
                m = self.m
                out = []
                for k, pres, v in s.heap[x.oid].data:
                    f = self.dict_find(s, y.oid, k)[0] if op != "or" else m.F
                    p = m.and_(pres, f if op == "and" else m.not_(f))
                    if m.and_(s.pc, p) is not m.F:
                        out.append((k, p, v))
                if op in ("or", "xor"):
                    for k, pres, v in s.heap[y.oid].data:
                        p = m.and_(pres, m.not_(self.dict_find(s, x.oid, k)[0]))
                        if m.and_(s.pc, p) is not m.F:
                            out.append((k, p, v))
                return self.leaf(self.new(s, "set", None, tuple(out)))
            if any(isinstance(q, OpaqueV) for q in (x, y)) and op == "or":
                return self.leaf(OpaqueV("type expression"))
            if all(isinstance(q, (TypeV, ClassV, OpaqueV)) or q is None for q in (x, y)) and op == "or":
                return self.leaf(TupleV([self.m.leaf(q) for q in (x, y)]))
            self.opaque(x, y, st=s)
            self.raise_if(s, self.m.T, TypeError,
                          f"unsupported operand type(s) for {op}: {self.tname(s, x)} and {self.tname(s, y)}")
        return self.split(st, [a, b], fn)

    def percent(self, st, fmt, arg):
        import re
        args = arg.v.items if isinstance(arg, Leaf) and isinstance(arg.v, TupleV) else (arg,)
        parts, i, k = [], 0, 0
        for mt in re.finditer(r"%[-+ 0-9.]*[sdfgir%]", fmt):
            parts.append(fmt[i:mt.start()])
            i = mt.end()
            if mt.group().endswith("%"):
                parts.append("%")
                continue
            if k >= len(args):
                raise Unsupported("format string")
            sp = mt.group()[1:]
            parts.append((args[k], "" if sp in ("s", "r") else sp.replace("i", "d")))
            k += 1
        parts.append(fmt[i:])
        return self.fmt(st, parts)

    def inf_bin(self, st, op, x, y, ds):
        if op in ("add", "sub"):
            sx = x.sg if isinstance(x, InfV) else 0
            sy = y.sg if isinstance(y, InfV) else 0
            if op == "sub":
                sy = -sy
            if isinstance(x, InfV) and isinstance(y, InfV) and sx != sy:
                return self.leaf(InfV(0))
            return self.leaf(InfV(sx or sy))
        raise Unsupported("arithmetic on infinity")

    def dunder(self, st, op, x, y, ds):
        def rev(s):
            if y is not None:
                f = self.class_lookup(s, s.heap[y.oid].cls, f"__r{op}__")
                if f is not None:
                    r = self.call_method(s, f, ds[1], [ds[0]])
                    return self.split(s, [r], lambda s2, v, d: self.no_op(s2, op, ds) if v[0] is NOTIMPL else d[0])
            return self.no_op(s, op, ds)
        if x is not None:
            f = self.class_lookup(st, st.heap[x.oid].cls, f"__{op}__")
            if f is not None:
                r = self.call_method(st, f, ds[0], [ds[1]])
                return self.split(st, [r], lambda s2, v, d: rev(s2) if v[0] is NOTIMPL else d[0])
        return rev(st)

    def no_op(self, st, op, ds):
        self.opaque(*[d.v if isinstance(d, Leaf) else NUMKEY for d in ds], st=st)
        ns = [self.tname(st, d.v if isinstance(d, Leaf) else NUMKEY) for d in ds]
        self.raise_if(st, self.m.T, TypeError, f"unsupported operand type(s) for {op}: {ns[0]} and {ns[1]}")

    def opaque(self, *vs, st=None):
        """a type error is only certain between values whose type is modelled in full."""
        for v in vs:
            if v is NUMKEY or v is None or isinstance(v, (Num, bool, FuncV, BoundV, ClassV, str)):
                continue
            if isinstance(v, Ref):
                k = (st or self.st).heap[v.oid].kind
                if k in ("inst", "exc"):
                    continue
                raise Unsupported(f"operation on a {k}")
            raise Unsupported(f"operation on {type(v).__name__} {getattr(v, 'name', '')}")

    def kind(self, st, v):
        return st.heap[v.oid].kind if isinstance(v, Ref) else None

    def no_attr(self, st, v, name):
        """is the absence of the attribute certain?"""
        if name.startswith("__"):
            raise Unsupported(f"attribute {name}")
        if isinstance(v, Ref):
            k = st.heap[v.oid].kind
            if k == "inst":
                return
            t = {"list": list, "dict": dict, "set": set}.get(k)
            if t is not None and not hasattr(t, name):
                return
            raise Unsupported(f"attribute {name} of {k}")
        if v is NUMKEY or isinstance(v, (Num, bool)):
            if hasattr(float, name) or hasattr(int, name):
                raise Unsupported(f"attribute {name} of a number")
            return
        if v is None:
            return
        if isinstance(v, str):
            if hasattr(str, name):
                raise Unsupported(f"str.{name}")
            return
        if isinstance(v, TupleV):
            if hasattr(tuple, name):
                raise Unsupported(f"tuple.{name}")
            return
        if isinstance(v, ModuleV) and v.native is not None:
            raise Unsupported(f"{v.name}.{name}")
        if isinstance(v, (ClassV, ModuleV)):
            return
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def tname(self, st, v):
        if v is NUMKEY or isinstance(v, Num):
            return "number"
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            return getattr(o.cls, "name", o.kind)
        if v is None:
            return "NoneType"
        return type(v).__name__

    def compare(self, st, op, a, b, as_bool=False):
        def fn(s, vs, ds):
            x, y = vs
            if x is NUMKEY and y is NUMKEY:
                return self.num_cmp(op, ds[0], ds[1])
            xi = isinstance(x, Ref) and s.heap[x.oid].kind == "inst"
            yi = isinstance(y, Ref) and s.heap[y.oid].kind == "inst"
            if xi or yi:
                return self.cmp_dunder(s, op, x if xi else None, y if yi else None, ds, x, y)
            if isinstance(x, InfV) or isinstance(y, InfV):
                if (isinstance(x, InfV) or x is NUMKEY) and (isinstance(y, InfV) or y is NUMKEY):
                    p = x.sg if isinstance(x, InfV) else 0
                    q = y.sg if isinstance(y, InfV) else 0
                    if (isinstance(x, InfV) and p == 0) or (isinstance(y, InfV) and q == 0):
                        return self.leaf(op == "ne")
                    return self.leaf({"eq": p == q, "ne": p != q, "lt": p < q, "le": p <= q,
                                      "gt": p > q, "ge": p >= q}[op])
            if op in ("eq", "ne"):
                r = self.plain_eq(s, x, y, ds)
                return r if op == "eq" else self.m.not_(r)
            if isinstance(x, str) and isinstance(y, str):
                return self.leaf({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])
            if isinstance(x, TupleV) and isinstance(y, TupleV):
                return self.lex(s, op, x.items, y.items)
            if self.kind(s, x) == "set" and self.kind(s, y) == "set":
                return self.set_cmp(s, op, s.heap[x.oid].data, s.heap[y.oid].data)
            if self.kind(s, x) == "list" and self.kind(s, y) == "list":
                p, q = s.heap[x.oid].data, s.heap[y.oid].data
                return self.split(s, [p, q], lambda s2, v2, d2: self.lex(s2, op, v2[0].items, v2[1].items))
            self.opaque(x, y, st=s)
            self.raise_if(s, self.m.T, TypeError,
                          f"'{op}' not supported between {self.tname(s, x)} and {self.tname(s, y)}")
        r = self.split(st, [a, b], fn)
        if as_bool:
            return self.truth(st, r)
        return r

    def lex(self, st, op, xs, ys):
        """lexicographic order of two item tuples."""
        if not xs or not ys:
            return self.leaf({"lt": len(xs) < len(ys), "le": len(xs) <= len(ys),
                              "gt": len(xs) > len(ys), "ge": len(xs) >= len(ys)}[op])
        e = self.truth(st, self.compare(st, "eq", xs[0], ys[0]))
        return self.branch(st, [(e, lambda s: self.lex(s, op, xs[1:], ys[1:])),
                                (self.m.not_(e), lambda s: self.truth(s, self.compare(s, op, xs[0], ys[0])))])

    def plain_eq(self, st, x, y, ds):
        if isinstance(x, (str, StrX)) and isinstance(y, (str, StrX)):
            if isinstance(x, str) and isinstance(y, str):
                return self.leaf(x == y)
            if x == y:
                return self.m.T
            return self.str_eq(st, x, y)
        if isinstance(x, TupleV) and isinstance(y, TupleV):
            return self.seq_eq(st, x.items, y.items)
        kx, ky = self.kind(st, x), self.kind(st, y)
        if kx == ky == "list":
            if x.oid == y.oid:
                return self.m.T
            p, q = st.heap[x.oid].data, st.heap[y.oid].data
            return self.split(st, [p, q], lambda s2, v2, d2: self.seq_eq(s2, v2[0].items, v2[1].items))
        if kx == ky and kx in ("dict", "set"):
            m = self.m
            if x.oid == y.oid:
                return m.T
            ok = m.T
            for p, q, vals in ((x.oid, y.oid, kx == "dict"), (y.oid, x.oid, False)):
                for k, pres, v in st.heap[p].data:
                    if m.and_(st.pc, pres) is m.F:
                        continue
                    found, w = self.dict_find(st, q, k)
                    if vals and w is not None:
                        found = m.and_(found, self.truth(st, self.compare(st, "eq", v, w)))
                    ok = m.and_(ok, m.or_(m.not_(pres), found))
            return ok
        if x is NUMKEY or y is NUMKEY:
            return self.m.F
        if isinstance(x, TypeV) and isinstance(y, TypeV):
            return self.leaf(x.name == y.name)
        return self.leaf(type(x) is type(y) and x == y)

    def str_eq(self, st, x, y):
        """equality of strings with formatted numbers.  A number prints as characters of 0-9 . e + - only, so the other
        characters of both strings must be the same, and what stands between two of them is compared piece by piece."""
        px = [x] if isinstance(x, str) else list(x.parts)
        py = [y] if isinstance(y, str) else list(y.parts)
        if any(not isinstance(p, str) and (p[1] in ("obj", "exc") or not number_text(p[1])) for p in px + py):
            if len(px) != len(py) or any(isinstance(a, str) != isinstance(b, str) for a, b in zip(px, py)):
                raise Unsupported("string comparison")
            pairs = [([a], [b]) for a, b in zip(px, py)]
        else:
            (rx, gx), (ry, gy) = text_groups(px), text_groups(py)
            if rx != ry:
                return self.m.F
            pairs = list(zip(gx, gy))
        ok = self.m.T
        for a, b in pairs:
            if all(isinstance(p, str) for p in a + b):
                if a != b:
                    return self.m.F
            elif not a or not b:
                return self.m.F
            elif len(a) == len(b) == 1:
                a, b = a[0], b[0]
                if isinstance(a, str):
                    a, b = b, a
                if isinstance(b, str):
                    try:
                        c = float(b)
                    except ValueError:
                        return self.m.F
                    if a[1] or repr(c) != b and str(int(c)) != b:
                        raise Unsupported("string comparison")
                    b = (self.leaf(alg.num(Fraction(b))), "")
                elif a[1] != b[1]:
                    raise Unsupported("string comparison")
                ok = self.m.and_(ok, self.truth(st, self.compare(st, "eq", a[0], b[0])))
            else:
                raise Unsupported("string comparison")
        return ok

    def seq_eq(self, st, xs, ys):
        if len(xs) != len(ys):
            return self.m.F
        ok = self.m.T
        for a, b in zip(xs, ys):
            if a is b and isinstance(a, Leaf):
                continue
            ok = self.m.and_(ok, self.truth(st, self.compare(st, "eq", a, b)))
        return ok

    def set_cmp(self, st, op, xs, ys):
        """subset relations of sets."""
        m = self.m

        def sub(a, b):
            ok = m.T
            for k, p, _ in a:
                found = m.F
                for k2, p2, _2 in b:
                    found = m.or_(found, m.and_(p2, self.truth(st, self.compare(st, "eq", k, k2))))
                ok = m.and_(ok, m.or_(m.not_(p), found))
            return ok
        le, ge = sub(xs, ys), sub(ys, xs)
        return {"le": le, "ge": ge, "lt": m.and_(le, m.not_(ge)), "gt": m.and_(ge, m.not_(le))}[op]

    def cmp_dunder(self, st, op, x, y, ds, rx, ry):
        def ident(s):
            if op in ("eq", "ne"):
                same = isinstance(rx, Ref) and isinstance(ry, Ref) and rx.oid == ry.oid
                return self.leaf(same if op == "eq" else not same)
            self.opaque(rx, ry, st=s)
            self.raise_if(s, self.m.T, TypeError, f"'{op}' not supported between "
                          f"{self.tname(s, rx)} and {self.tname(s, ry)}")

        def try_(s, recv, d, other, nm):
            f = self.class_lookup(s, s.heap[recv.oid].cls, f"__{nm}__")
            if f is None and nm == "ne":
                f = self.class_lookup(s, s.heap[recv.oid].cls, "__eq__")
                if f is None:
                    return None
                r = self.call_method(s, f, d, [other])
                return self.split(s, [r], lambda s2, v, dd: dd[0] if v[0] is NOTIMPL
                                  else self.m.not_(self.truth(s2, dd[0])))
            if f is None:
                return None
            return self.call_method(s, f, d, [other])

        def rev(s):
            if y is not None:
                r = try_(s, y, ds[1], ds[0], SWAP[op])
                if r is not None:
                    return self.split(s, [r], lambda s2, v, d: ident(s2) if v[0] is NOTIMPL else d[0])
            return ident(s)
        if x is not None:
            r = try_(st, x, ds[0], ds[1], op)
            if r is not None:
                return self.split(st, [r], lambda s2, v, d: rev(s2) if v[0] is NOTIMPL else d[0])
        return rev(st)

    # -- truth ------------------------------------------------------------------
    def truth(self, st, v):
        m = self.m
        if v is m.T or v is m.F:
            return v

        def fn(s, vs, ds):
            x = vs[0]
            if x is NUMKEY:
                return m.map(lambda z: m.leaf(z) if isinstance(z, bool) else
                             m.map(lambda q: m.leaf(q != 0), gates.sign_num(z)), ds[0])
            if x is None:
                return m.F
            if isinstance(x, str):
                return m.leaf(bool(x))
            if isinstance(x, StrX):
                return m.T
            if isinstance(x, TupleV):
                return m.leaf(bool(x.items))
            if isinstance(x, RangeV):
                return m.leaf(bool(x.items()))
            if isinstance(x, Ref):
                o = s.heap[x.oid]
                if o.kind == "list":
                    return m.map(lambda t: m.leaf(bool(t.items)), o.data)
                if o.kind in ("dict", "set"):
                    r = m.F
                    for k, p, _ in o.data:
                        r = m.or_(r, p)
                    return r
                if o.kind == "inst":
                    f = self.class_lookup(s, o.cls, "__bool__")
                    if f is not None:
                        return self.truth(s, self.call_method(s, f, ds[0], []))
                    f = self.class_lookup(s, o.cls, "__len__")
                    if f is not None:
                        return self.truth(s, self.call_method(s, f, ds[0], []))
                return m.T
            if x is NOTIMPL:
                return m.T
            if isinstance(x, InfV):
                return m.T
            return m.T
        ls = m.leaves_under(v, st.pc)
        if all(isinstance(l.v, bool) for l in ls):
            v = self.simp(v, st)
            return m.map(lambda z: m.leaf(bool(z)) if isinstance(z, bool) else m.F, v)
        return self.split(st, [v], fn)

    # -- attributes -----------------------------------------------------------
    @staticmethod
    def is_contract(f):
        return f.module is not None and f.module.name.startswith("contracts")

    def class_lookup(self, st, cls, name):
        if isinstance(cls, ExcClass):
            return None
        m = self.m
        got = None
        u = m.leaf(UNDEF)
        for c in cls.mro:
            v = st.heap[c.ns].data.get(name)
            if v is not None and not (isinstance(v, Leaf) and v.v is UNDEF):
                if name == "__hash__" and isinstance(v, Leaf) and v.v is None:
                    return None
                if got is not None:     # defined in the derived class on some traces only
                    v = m.map(lambda x, v=v: v if x is UNDEF else m.leaf(x), got)
                if isinstance(v, Leaf) or not any(l is u for l in m.leaves_under(v, st.pc)):
                    return v
                got = v
        return got

    def call_method(self, st, f, recv, args, kw=None):
        """call class attribute f (DD) as a method of recv."""
        v = f.v if isinstance(f, Leaf) else None
        if isinstance(v, FuncV):
            return self.call(st, f, [recv] + list(args), kw or {})
        b = self.bind(st, f, recv)
        return self.call(st, b, list(args), kw or {})

    def bind(self, st, d, recv):
        """descriptor protocol for a class attribute."""
        def one(v):
            if isinstance(v, FuncV) or isinstance(v, Builtin):
                return self.leaf(BoundV(v, recv))
            if isinstance(v, Wrapper):
                if v.kind == "static":
                    return self.leaf(v.func)
                if v.kind == "class":
                    o = st.heap[recv.v.oid].cls if isinstance(recv.v, Ref) else recv.v
                    return self.leaf(BoundV(v.func, self.leaf(o)))
            return self.leaf(v)
        return self.m.map(one, d)

    def cached_property(self, st, ref, d, name, func):
        """functools.cached_property: computed once, then an instance attribute."""
        m = self.m
        x = st.heap[ref.oid].data.get(name)
        if x is None:
            x = self.leaf(UNDEF)
        missing = m.map(lambda q: self.leaf(q is UNDEF), x)
        missing = self.simp(missing, st)
        if missing is m.F:
            return x

        def fn(s, vs, ds):
            if vs[0] is False:
                return s.heap[ref.oid].data[name]
            r = self.call(s, self.leaf(func), [d], {})
            s.w(ref.oid).data[name] = r
            return r
        return self.split(st, [missing], fn)

    def getattr_(self, st, o, name, default=None):
        m = self.m

        def fn(s, vs, ds):
            v = vs[0]
            r = self.attr_leaf(s, v, ds[0], name, default is not None)
            if default is not None:
                if r is None:
                    return default
                return r if isinstance(r, Leaf) else m.map(lambda x: default if x is UNDEF else m.leaf(x), r)
            if r is None:
                self.no_attr(s, v, name)
                self.raise_if(s, m.T, AttributeError, f"'{self.tname(s, v)}' object has no attribute '{name}'")
            return r
        o = self.simp(o, st)
        # fast path: all leaves plain instances with a data attribute
        if not isinstance(o, Leaf):
            ls = m.leaves_under(o, st.pc)
            if all(isinstance(l.v, Ref) and st.heap[l.v.oid].kind == "inst" and
                   name in st.heap[l.v.oid].data for l in ls):
                ok = {l.v for l in ls}
                v = m.map(lambda r: st.heap[r.oid].data[name] if r in ok else self.none, o)
                if default is not None:
                    v = m.map(lambda x: default if x is UNDEF else m.leaf(x), v)
                return self.defined(st, self.simp(v, st), AttributeError, f"no attribute '{name}'")
        return self.split(st, [o], fn)

    def attr_leaf(self, st, v, d, name, partial=False):
        """the attribute, None when it is absent on all traces; partial: absent on some traces is UNDEF, not an error."""
        def defined(x, msg):
            x = self.simp(x, st)
            if isinstance(x, Leaf) and x.v is UNDEF:
                return None
            return x if partial else self.defined(st, x, AttributeError, msg)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == "inst":
                cv = self.class_lookup(st, o.cls, name)
                if cv is not None and isinstance(cv, Leaf) and isinstance(cv.v, Wrapper) and cv.v.kind == "prop":
                    return self.call(st, self.leaf(cv.v.func), [d], {})
                if cv is not None and isinstance(cv, Leaf) and isinstance(cv.v, Wrapper) and cv.v.kind == "cprop":
                    return self.cached_property(st, v, d, name, cv.v.func)
                if name in o.data:
                    x = o.data[name]
                    if cv is None:
                        return defined(x, f"'{o.cls.name}' object has no attribute '{name}'")
                    if not (isinstance(x, Leaf) and x.v is UNDEF):
                        return defined(self.m.map(lambda q: self.leaf(q) if q is not UNDEF else self.bind(st, cv, d), x), name)
                if cv is not None:
                    return self.bind(st, cv, d) if isinstance(cv, Leaf) else defined(self.bind(st, cv, d), name)
                if name == "__class__":
                    return self.leaf(o.cls)
                if name == "__dict__":
                    raise Unsupported("__dict__")
                ga = self.class_lookup(st, o.cls, "__getattr__")
                if ga is not None:
                    return self.call_method(st, ga, d, [self.leaf(name)])
                return None
            if o.kind == "exc":
                if name in o.data:
                    return o.data[name]
                if isinstance(o.cls, ClassV):
                    cv = self.class_lookup(st, o.cls, name)
                    if cv is not None:
                        return self.bind(st, cv, d)
                return None
            f = self.B.method(self, o.kind, name)
            if f is None:
                return None
            return self.leaf(BoundV(f, d))
        if isinstance(v, ClassV):
            if name == "__name__" or name == "__qualname__":
                return self.leaf(v.name)
            cv = self.class_lookup(st, v, name)
            if cv is None:
                if name == "__doc__":
                    return self.none
                if name == "__init__" and not v.exc:
                    return self.leaf(self.B.OBJECT_INIT)
                return None
            def one(x):
                if isinstance(x, Wrapper):
                    if x.kind == "cprop":
                        return self.leaf(x)
                    if x.kind == "static":
                        return self.leaf(x.func)
                    if x.kind == "class":
                        return self.leaf(BoundV(x.func, d))
                    if x.kind == "prop":
                        return self.leaf(x)
                return self.leaf(x)
            return defined(self.m.map(one, cv), name)
        if isinstance(v, ModuleV):
            r = self.module_attr(st, v, name)
            if r is None and self.frames[-1].func.module.name.startswith("contracts") and v.native is None:
                raise AnchorMissing(f"{v.name}.{name}")
            return r if r is None or isinstance(r, Leaf) and r.v is not UNDEF else defined(r, name)
        if isinstance(v, SuperV):
            o = v.recv.v
            cls = st.heap[o.oid].cls if isinstance(o, Ref) else o
            i = cls.mro.index(v.cls)
            for c in cls.mro[i + 1:]:
                x = st.heap[c.ns].data.get(name)
                if x is not None:
                    return self.bind(st, x, v.recv)
            if name == "__init__":
                return self.leaf(self.B.OBJECT_INIT)
            return None
        if isinstance(v, (str, StrX)):
            f = self.B.method(self, "str", name)
            return None if f is None else self.leaf(BoundV(f, d))
        if v is NUMKEY:
            f = self.B.method(self, "num", name)
            return None if f is None else self.leaf(BoundV(f, d))
        if isinstance(v, TupleV):
            f = self.B.method(self, "tuple", name)
            return None if f is None else self.leaf(BoundV(f, d))
        if isinstance(v, Wrapper) and v.kind == "prop" and name in ("setter", "getter"):
            return self.leaf(Builtin("setter", lambda it, s, a, k: it.leaf(
                Wrapper("prop", v.func, a[0].v) if name == "setter" else Wrapper("prop", a[0].v, v.fset))))
        if isinstance(v, (FuncV, BoundV)):
            if name in ("__name__", "__qualname__"):
                f = v if isinstance(v, FuncV) else v.func
                return self.leaf(f.name)
            if name == "__doc__":
                return self.none
            f = v if isinstance(v, FuncV) else v.func
            if isinstance(f, FuncV) and getattr(f, "attrs", None) is not None:
                x = st.heap[f.attrs].data.get(name)
                if x is None or (isinstance(x, Leaf) and x.v is UNDEF):
                    return None
                return defined(x, f"'function' object has no attribute '{name}'")
            if isinstance(v, FuncV):
                raise Unsupported("function attribute")
            return None
        if isinstance(v, TypeV):
            if name == "__name__":
                return self.leaf(v.name)
            f = self.B.method(self, v.name, name)
            if f is not None:
                return self.leaf(f)
            x = self.B.type_attr(self, v, name)
            if x is not None:
                return x
            raise Unsupported(f"{v.name}.{name}")
        if isinstance(v, ExcClass):
            if name == "__name__":
                return self.leaf(v.name)
            if name == "__init__":
                return self.leaf(self.B.OBJECT_INIT)
            raise Unsupported(f"{v.name}.{name}")
        if isinstance(v, OpaqueV):
            return self.leaf(OpaqueV(v.name + "." + name))
        if v is None:
            return None
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def setattr_(self, st, o, name, val):
        m = self.m

        def fn(s, vs, ds):
            v = vs[0]
            if isinstance(v, Ref):
                ob = s.heap[v.oid]
                if ob.kind in ("inst", "exc"):
                    if ob.kind == "inst":
                        cv = self.class_lookup(s, ob.cls, name)
                        if cv is not None and isinstance(cv, Leaf) and isinstance(cv.v, Wrapper) and cv.v.kind == "prop":
                            if cv.v.fset is None:
                                self.raise_if(s, m.T, AttributeError, f"property '{name}' has no setter")
                            self.call(s, self.leaf(cv.v.fset), [ds[0], val], {})
                            return self.none
                        sa = self.class_lookup(s, ob.cls, "__setattr__")
                        if sa is not None:
                            raise Unsupported("__setattr__")
                        if self.class_lookup(s, ob.cls, "__slots__") is not None:
                            pass
                    s.w(v.oid).data[name] = val
                    return self.none
            if isinstance(v, ClassV):
                s.w(v.ns).data[name] = val
                return self.none
            if isinstance(v, ModuleV) and v.native is None:
                s.w(v.ns).data[name] = val
                return self.none
            if isinstance(v, FuncV) and getattr(v, "attrs", None) is not None:
                s.w(v.attrs).data[name] = val
                return self.none
            if isinstance(v, (FuncV, ModuleV)):
                raise Unsupported("attribute store on function/module")
            self.raise_if(s, m.T, AttributeError, f"cannot set '{name}' on {self.tname(s, v)}")
        o = self.simp(o, st)
        if not isinstance(o, Leaf):
            ls = m.leaves_under(o, st.pc)
            if all(isinstance(l.v, Ref) and st.heap[l.v.oid].kind == "inst" and
                   name in st.heap[l.v.oid].data and
                   self.class_lookup(st, st.heap[l.v.oid].cls, name) is None for l in ls):
                # weak update under the alias gate
                for l in ls:
                    g = m.where(o, l)
                    ob = st.w(l.v.oid)
                    ob.data[name] = self.simp(self.mux(g, val, ob.data[name]), st)
                return
        self.split(st, [o], fn)

    # -- subscripts -------------------------------------------------------------
    def concrete_int(self, st, d):
        d = self.simp(d, st)
        if isinstance(d, Leaf) and is_num(d.v):
            v = as_num(d.v)
            if v.is_const() and v.const().denominator == 1:
                return int(v.const())
        raise Unsupported("symbolic integer")

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        if isinstance(n.slice, ast.Slice):
            i = self.e_Slice(n.slice, st)
        else:
            i = self.eval(n.slice, st)
        return self.getitem(st, o, i)

    def e_Slice(self, n, st):
        """a slice whose bounds may be gated integers: a gated slice."""
        def num(v):
            if v is None or isinstance(v, int) and not isinstance(v, bool):
                return v
            if is_num(v):
                v = as_num(v)
                if isinstance(v, INum) and v.is_const():
                    return int(v.const())
            raise Unsupported("symbolic slice bound")
        ds = [self.simp(self.eval(x, st), st) if x is not None else self.none
              for x in (n.lower, n.upper, n.step)]
        return self.m.applyn(lambda a, b, s: self.leaf(SliceV(num(a), num(b), num(s))), ds)

    @staticmethod
    def is_slice(d):
        while not isinstance(d, Leaf):
            d = d.kids[0]
        return isinstance(d.v, SliceV)

    def getitem(self, st, o, i):
        m = self.m

        def fn(s, vs, ds):
            v = vs[0]
            if isinstance(v, OpaqueV) or isinstance(v, TypeV):
                return self.leaf(OpaqueV("subscript"))
            if isinstance(v, Ref):
                ob = s.heap[v.oid]
                if ob.kind == "list":
                    return self.seq_get(s, ob.data, i, True)
                if ob.kind == "dict":
                    return self.dict_get(s, v.oid, i)
                if ob.kind == "inst":
                    f = self.class_lookup(s, ob.cls, "__getitem__")
                    if f is not None:
                        return self.call_method(s, f, ds[0], [i])
            if isinstance(v, TupleV):
                return self.seq_get(s, ds[0], i, False)
            if isinstance(v, str):
                ii = self.simp(i, s)
                if isinstance(ii, Leaf) and isinstance(ii.v, SliceV):
                    return self.leaf(v[slice(ii.v.a, ii.v.b, ii.v.s)])
                k = self.concrete_int(s, ii)
                if -len(v) <= k < len(v):
                    return self.leaf(v[k])
                self.raise_if(s, m.T, IndexError, "string index out of range")
            if isinstance(v, RangeV):
                return self.seq_get(s, self.iterate(s, ds[0]), i, False)
            if isinstance(v, ClassV):
                if v.is_enum:
                    ii = self.simp(i, s)
                    if isinstance(ii, Leaf) and isinstance(ii.v, str):
                        r = self.class_lookup(s, v, ii.v)
                        if r is not None:
                            return r
                        self.raise_if(s, m.T, KeyError, ii.v)
                raise Unsupported("class subscript")
            self.opaque(v, st=s)
            self.raise_if(s, m.T, TypeError, f"'{self.tname(s, v)}' object is not subscriptable")
        return self.split(st, [o], fn)

    def seq_get(self, st, data, i, is_list):
        m = self.m
        i = self.simp(i, st)
        data = self.simp(data, st)
        if self.is_slice(i):
            r = m.apply(lambda t, k: self.leaf(TupleV(t.items[slice(k.a, k.b, k.s)])), data, i)
            return self.leaf(self.new(st, "list", None, r)) if is_list else r

        def chk(t, k):
            if not is_num(k):
                raise Unsupported("sequence index type")
            k = as_num(k)
            if not k.is_const():
                raise Unsupported("symbolic index")
            if not isinstance(k, INum):
                return m.leaf("type")
            c = int(k.const())
            return m.leaf("ok" if -len(t.items) <= c < len(t.items) else "range")
        c = m.apply(chk, data, i)
        self.raise_if(st, m.map(lambda q: m.leaf(q == "type"), c), TypeError, "list indices must be integers")
        self.raise_if(st, m.map(lambda q: m.leaf(q == "range"), c), IndexError, "list index out of range")
        data, i = self.simp(data, st), self.simp(i, st)

        def get(t, k):
            c = int(as_num(k).const())
            if -len(t.items) <= c < len(t.items):
                return t.items[c]
            return self.none
        return m.apply(get, data, i)

    def setitem(self, st, o, i, v):
        m = self.m

        def fn(s, vs, ds):
            r = vs[0]
            if isinstance(r, Ref):
                ob = s.heap[r.oid]
                if ob.kind == "list":
                    ii = self.simp(i, s)
                    ks = m.leaves_under(ii, s.pc)
                    bad = m.apply(lambda t, k: m.leaf(not (-len(t.items) <= int(as_num(k).const()) < len(t.items)))
                                  if is_num(k) and as_num(k).is_const() else _uns("symbolic index store"),
                                  self.simp(ob.data, s), ii)
                    self.raise_if(s, bad, IndexError, "list assignment index out of range")

                    def put(t, k):
                        k = int(as_num(k).const())
                        if not (-len(t.items) <= k < len(t.items)):
                            return self.leaf(t)
                        it = list(t.items)
                        it[k] = v
                        return self.leaf(TupleV(it))
                    s.w(r.oid).data = m.apply(put, self.simp(s.heap[r.oid].data, s), self.simp(ii, s))
                    return self.none
                if ob.kind == "dict":
                    self.dict_set(s, r.oid, i, v)
                    return self.none
                if ob.kind == "inst":
                    f = self.class_lookup(s, ob.cls, "__setitem__")
                    if f is not None:
                        self.call_method(s, f, ds[0], [i, v])
                        return self.none
            self.opaque(r, st=s)
            self.raise_if(s, m.T, TypeError, f"'{self.tname(s, r)}' object does not support item assignment")
        self.split(st, [o], fn)

    def delitem(self, st, o, i):
        m = self.m

        def fn(s, vs, ds):
            r = vs[0]
            if isinstance(r, Ref):
                ob = s.heap[r.oid]
                if ob.kind == "list":
                    ii = self.simp(i, s)
                    if self.is_slice(ii):
                        def cut(t, k):
                            x = list(t.items)
                            del x[slice(k.a, k.b, k.s)]
                            return self.leaf(TupleV(x))
                        s.w(r.oid).data = m.apply(cut, self.simp(ob.data, s), ii)
                        return self.none
                    self.list_pop(s, r.oid, i)
                    return self.none
                if ob.kind == "dict":
                    self.dict_pop(s, r.oid, i)
                    return self.none
            raise Unsupported("del item")
        self.split(st, [o], fn)

    def list_pop(self, st, oid, i):
        m = self.m
        ob = st.heap[oid]
        data = self.simp(ob.data, st)
        i = self.simp(i, st)
        bad = m.apply(lambda t, k: m.leaf(not (-len(t.items) <= int(as_num(k).const()) < len(t.items)))
                      if is_num(k) and as_num(k).is_const() else _uns("symbolic pop"), data, i)
        self.raise_if(st, bad, IndexError, "pop index out of range")
        data, i = self.simp(data, st), self.simp(i, st)

        def get(t, k):
            k = int(as_num(k).const())
            return t.items[k] if -len(t.items) <= k < len(t.items) else self.none

        def rem(t, k):
            k = int(as_num(k).const())
            if not (-len(t.items) <= k < len(t.items)):
                return self.leaf(t)
            it = list(t.items)
            del it[k]
            return self.leaf(TupleV(it))
        r = m.apply(get, data, i)
        st.w(oid).data = m.apply(rem, data, i)
        return r

    # -- dicts ------------------------------------------------------------------
    def key_objects(self, st, d):
        """does a key hold an instance of a class with its own equality?"""
        def inside(v):
            if isinstance(v, Ref):
                o = st.heap[v.oid]
                return o.kind == "inst" and self.class_lookup(st, o.cls, "__eq__") is not None
            if isinstance(v, TupleV):
                return any(self.key_objects(st, x) for x in v.items)
            return False
        return any(inside(l.v) for l in self.m.leaves_under(d, st.pc))

    def key_eq(self, st, a, b, stored=None):
        """a: key looked up, b: key of the dictionary, stored: its hash when it was inserted."""
        def hashable(d):
            for l in self.m.leaves_under(d, st.pc):
                if isinstance(l.v, Ref):
                    o = st.heap[l.v.oid]
                    if o.kind in ("list", "dict", "set"):
                        self.raise_if(st, self.m.where(d, l), TypeError, f"unhashable type: '{o.kind}'")
        if self.key_objects(st, a) or self.key_objects(st, b):
            if stored is None:
                raise Unsupported("object keys")
            h = self.B.b_hash(self, st, [a], {})
            e = self.m.apply(lambda x, y: self.same_hash(x, y), h, stored)
            if self.m.and_(e, st.pc) is self.m.F:
                return self.m.F
            return self.m.and_(e, self.truth(st, self.compare(st, "eq", a, b)))
        if a is b:
            return self.m.T
        hashable(a)
        hashable(b)
        return self.truth(st, self.compare(st, "eq", a, b))

    def same_hash(self, x, y):
        """equality of modelled hash values: hashes are taken to be injective."""
        m = self.m
        if x is y:
            return m.T

        def parts(z):
            if isinstance(z, Num) and not z.den and len(z.n.d) == 1:
                (mono, c), = z.n.d.items()
                if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                    G = alg.CTX.gens[mono[0][0]]
                    if G.kind == "hash":
                        return G.args if isinstance(G.args, tuple) else (G.args,)
            return None
        p, q = parts(x), parts(y)
        if p is not None and q is not None:
            if len(p) != len(q):
                return m.F
            r = m.T
            for s, t in zip(p, q):
                r = m.and_(r, self.same_hash(s, t))
            return r
        return m.map(lambda t: m.leaf(t == 0), gates.sign_num(alg.sub(as_num(x), as_num(y))))

    def check_hashable(self, st, k):
        def fn(s, vs, ds):
            v = vs[0]
            if isinstance(v, Ref):
                o = s.heap[v.oid]
                if o.kind in ("list", "dict", "set"):
                    self.raise_if(s, self.m.T, TypeError, f"unhashable type: '{o.kind}'")
                if o.kind == "inst" and self.unhashable(s, o.cls):
                    self.raise_if(s, self.m.T, TypeError, f"unhashable type: '{o.cls.name}'")
            return self.none
        self.split(st, [k], fn)

    def unhashable(self, st, cls):
        for c in cls.mro:
            d = st.heap[c.ns].data
            h = d.get("__hash__")
            if h is not None:
                return isinstance(h, Leaf) and h.v is None
            if "__eq__" in d:
                return True
        return False

    def dict_set(self, st, oid, k, v):
        m = self.m
        self.check_hashable(st, k)
        k = self.simp(k, st)
        out = []
        found = m.F
        for kk, p, vv in st.heap[oid].data:
            if st.heap[oid].kind == "set" or True:
                e = m.and_(p, self.key_eq(st, k, kk, self.key_hash.get((oid, kk.uid))))
            if e is m.F:
                out.append((kk, p, vv))
            else:
                out.append((kk, p, vv if v is vv else self.mux(e, v, vv)))
                found = m.or_(found, e)
        new = m.not_(found)
        if m.and_(st.pc, new) is not m.F:
            if self.key_objects(st, k):
                h = self.B.b_hash(self, st, [k], {})
                if self.key_hash.get((oid, k.uid), h) is not h:
                    raise Unsupported("a key changed and inserted again")
                self.key_hash[(oid, k.uid)] = h
            out.append((k, new, v))
        st.w(oid).data = tuple(out)

    def dict_find(self, st, oid, k):
        m = self.m
        self.check_hashable(st, k)
        k = self.simp(k, st)
        found, val = m.F, None
        for kk, p, vv in st.heap[oid].data:
            e = m.and_(p, self.key_eq(st, k, kk, self.key_hash.get((oid, kk.uid))))
            if e is m.F:
                continue
            val = vv if val is None else self.mux(e, vv, val)
            found = m.or_(found, e)
        return found, val

    def dict_get(self, st, oid, k):
        found, val = self.dict_find(st, oid, k)
        self.raise_if(st, self.m.not_(found), KeyError, repr(k))
        return self.simp(val, st)

    def dict_pop(self, st, oid, k):
        m = self.m
        found, val = self.dict_find(st, oid, k)
        self.raise_if(st, m.not_(found), KeyError, repr(k))
        out = []
        for kk, p, vv in st.heap[oid].data:
            e = self.key_eq(st, k, kk, self.key_hash.get((oid, kk.uid)))
            out.append((kk, m.and_(p, m.not_(e)), vv))
        st.w(oid).data = tuple(t for t in out if t[1] is not m.F)
        return val

    def contains(self, st, c, x):
        m = self.m

        def fn(s, vs, ds):
            v = vs[0]
            if isinstance(v, Ref):
                ob = s.heap[v.oid]
                if ob.kind in ("dict", "set"):
                    return self.dict_find(s, v.oid, x)[0]
                if ob.kind == "inst":
                    f = self.class_lookup(s, ob.cls, "__contains__")
                    if f is not None:
                        return self.truth(s, self.call_method(s, f, ds[0], [x]))
            if isinstance(v, str):
                xv = self.simp(x, s)
                if isinstance(xv, Leaf) and isinstance(xv.v, str):
                    return self.leaf(xv.v in v)
                raise Unsupported("substring")
            items = self.iterate(s, ds[0])

            def each(s2, v2, d2):
                r = m.F
                for it in v2[0].items:
                    e = self.is_safe(s2, it, x)
                    if e is not m.T:
                        e = m.or_(e, self.truth(s2, self.compare(s2, "eq", it, x)))
                    r = m.or_(r, e)
                return r
            return self.split(s, [items], each)
        return self.split(st, [c], fn)

    def is_safe(self, st, a, b):
        def f(x, y):
            if isinstance(x, Ref) and isinstance(y, Ref):
                return self.leaf(x.oid == y.oid)
            return self.m.F
        return self.m.apply(f, a, b)

    # -- iteration -----------------------------------------------------------------
    def beyond(self, st, x):
        """leave the paths on which x is past the values followed of a generator; True when that is all of them"""
        m = self.m
        past = m.map(lambda v: m.leaf(isinstance(v, More)), x)
        if past is m.F or m.and_(st.pc, past) is m.F:
            return False
        rest = m.and_(st.pc, m.not_(past))
        st.pc = m.and_(st.pc, past)
        self.give_up(st, Unsupported("loop bound"))
        st.pc = rest
        return rest is m.F

    def iterate(self, st, v, lazy=False):
        """all items of an iterable, eagerly, as a DD of TupleV."""
        m = self.m

        def fn(s, vs, ds):
            x = vs[0]
            if isinstance(x, TupleV):
                return ds[0]
            if isinstance(x, RangeV):
                it = x.items()
                if len(it) > 200:
                    raise Unsupported("long range")
                return self.leaf(TupleV([self.leaf(iconst(i)) for i in it]))
            if isinstance(x, str):
                return self.leaf(TupleV([self.leaf(c) for c in x]))
            if isinstance(x, Ref):
                o = s.heap[x.oid]
                if o.kind == "list":
                    return o.data
                if o.kind in ("dict", "set"):
                    acc = self.leaf(TupleV([]))
                    for k, p, _ in o.data:
                        if p is m.T or m.and_(s.pc, m.not_(p)) is m.F:
                            acc = self.concat(acc, self.leaf(TupleV([k])))
                        elif m.and_(s.pc, p) is m.F:
                            continue
                        else:
                            acc = m.ite(p, self.concat(acc, self.leaf(TupleV([k]))), acc)
                    return acc
                if o.kind == "iter":
                    items, pos = o.data
                    r = m.apply(lambda t, k: self.leaf(TupleV(t.items[int(k.const()):])), items, pos)
                    s.w(x.oid).data = (items, m.map(lambda t: self.leaf(iconst(len(t.items))), items))
                    if not lazy and self.beyond(s, m.map(lambda t: t.items[-1] if t.items else self.none, r)):
                        raise Dead
                    return r
                if o.kind == "inst":
                    f = self.class_lookup(s, o.cls, "__iter__")
                    if f is not None:
                        return self.iterate(s, self.call_method(s, f, ds[0], []))
                    if self.class_lookup(s, o.cls, "__getitem__") is not None:
                        raise Unsupported("iteration by __getitem__")
            if isinstance(x, ClassV) and x.is_enum:
                return self.leaf(TupleV([q for k, q in s.heap[x.ns].data.items()
                                         if isinstance(q, Leaf) and isinstance(q.v, Ref) and
                                         s.heap[q.v.oid].cls is x]))
            self.opaque(x, st=s)
            self.raise_if(s, m.T, TypeError, f"'{self.tname(s, x)}' object is not iterable")
        return self.split(st, [v], fn)

    def comp(self, n, st, emit):
        """run comprehension generators; emit(state) appends."""
        f = FuncV()
        cur = self.frames[-1]
        f.node, f.name, f.qual, f.module, f.file, f.cls = None, "<comp>", cur.func.qual, cur.func.module, cur.func.file, cur.func.cls
        f.closure = ((cur.oid,) if cur.oid != cur.func.module.ns else ()) + tuple(cur.func.closure)
        f.locals = (set(), set(), set())
        first = self.eval(n.generators[0].iter, st)
        oid = self.new(st, "frame", None, {}).oid
        fr = Frame(f, oid)
        self.frames.append(fr)
        self.stack.append(n.lineno)

        def gen(i, s):
            if i == len(n.generators):
                emit(s)
                return
            g = n.generators[i]
            it = first if i == 0 else self.eval(g.iter, s)
            items = self.iterate(s, it)
            m = self.m
            k = 0
            while True:
                self.tick()
                items = self.simp(items, s)
                more = m.map(lambda t: m.leaf(len(t.items) > k), items)
                go = m.and_(s.pc, more)
                if go is m.F:
                    return
                if k > 100:
                    raise Unsupported("loop bound")

                def body(s2):
                    x = m.map(lambda t: t.items[k] if len(t.items) > k else self.none, self.simp(items, s2))
                    self.assign(g.target, x, s2)

                    def conds(j, s3):
                        if j == len(g.ifs):
                            gen(i + 1, s3)
                            return self.none
                        c = self.truth(s3, self.eval(g.ifs[j], s3))
                        if m.and_(s3.pc, m.not_(c)) is m.F:
                            return conds(j + 1, s3)
                        if m.and_(s3.pc, c) is m.F:
                            return self.none
                        return self.branch(s3, [(c, lambda s4: conds(j + 1, s4)),
                                                (m.not_(c), lambda s4: self.none)])
                    return conds(0, s2)
                if m.and_(s.pc, m.not_(more)) is m.F:
                    body(s)
                else:
                    self.branch(s, [(more, body), (m.not_(more), lambda s2: self.none)])
                k += 1
        try:
            gen(0, st)
        finally:
            self.frames.pop()
            self.stack.pop()
            if not fr.captured:
                st.heap.pop(oid, None)

    def e_ListComp(self, n, st):
        r = self.new(st, "list", None, self.leaf(TupleV([])))

        def emit(s):
            v = self.eval(n.elt, s)
            s.w(r.oid).data = self.m.map(lambda t: self.leaf(TupleV(t.items + (v,))), s.heap[r.oid].data)
        self.comp(n, st, emit)
        return self.leaf(r)

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st)

    def e_SetComp(self, n, st):
        r = self.new(st, "set", None, ())
        self.comp(n, st, lambda s: self.dict_set(s, r.oid, self.eval(n.elt, s), self.none))
        return self.leaf(r)

    def e_DictComp(self, n, st):
        r = self.new(st, "dict", None, ())
        self.comp(n, st, lambda s: self.dict_set(s, r.oid, self.eval(n.key, s), self.eval(n.value, s)))
        return self.leaf(r)

    def e_Lambda(self, n, st):
        return self.leaf(self.make_func(n, st, "<lambda>"))

    def e_Starred(self, n, st):
        raise Unsupported("starred")

    # -- calls ---------------------------------------------------------------------
    def e_Call(self, n, st):
        fr = self.frames[-1]
        # lazily evaluated generator arguments of any/all
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and \
                isinstance(n.args[0], ast.GeneratorExp):
            f = self.load_name(n.func.id, st)
            if isinstance(f, Leaf) and isinstance(f.v, Builtin) and f.v.name in ("any", "all"):
                return self.anyall(n.args[0], st, f.v.name == "any")
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = None
            for f in reversed(self.frames):
                if f.func.cls is not None and f.func.node is not None:
                    cls = f
                    break
            if cls is None:
                raise Unsupported("super()")
            first = cls.func.node.args.args[0].arg
            recv = st.heap[cls.oid].data[first]
            return self.leaf(SuperV(cls.func.cls, self.simp(recv, st)))
        fv = self.eval(n.func, st)
        args = self.leaf(TupleV([]))
        simple = []
        star = any(isinstance(a, ast.Starred) for a in n.args)
        if not star:
            simple = [self.eval(a, st) for a in n.args]
        else:
            for a in n.args:
                if isinstance(a, ast.Starred):
                    args = self.concat(args, self.iterate(st, self.eval(a.value, st)))
                else:
                    args = self.concat(args, self.leaf(TupleV([self.eval(a, st)])))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.simp(self.eval(k.value, st), st)
                if isinstance(d, Leaf) and isinstance(d.v, Ref) and st.heap[d.v.oid].kind == "dict":
                    for kk, p, vv in st.heap[d.v.oid].data:
                        if not (isinstance(kk, Leaf) and isinstance(kk.v, str)) or self.m.and_(st.pc, self.m.not_(p)) is not self.m.F:
                            raise Unsupported("gated **kwargs")
                        kw[kk.v] = vv
                else:
                    raise Unsupported("**kwargs")
            else:
                kw[k.arg] = self.eval(k.value, st)
        self.stack[-1] = n.lineno
        self.callsites.add((fr.func.file, n.lineno, n.col_offset))
        if star:
            return self.split(st, [args], lambda s, v, d: self.call(s, fv, list(v[0].items), kw))
        return self.call(st, fv, simple, kw)

    def anyall(self, n, st, is_any):
        m = self.m
        res = self.new(st, "frame", None, {"r": m.F})
        # found flag lives in the heap so that joins track it

        def emit(s):
            f = s.heap[res.oid].data["r"]
            if m.and_(s.pc, m.not_(f)) is m.F:
                return

            def go(s2):
                t = self.truth(s2, self.eval(n.elt, s2))
                s2.w(res.oid).data["r"] = t if is_any else m.not_(t)
                return self.none
            if m.and_(s.pc, f) is m.F:
                go(s)
            else:
                self.branch(s, [(m.not_(f), go), (f, lambda s2: self.none)])
        self.comp(n, st, emit)
        r = st.heap[res.oid].data["r"]
        st.heap.pop(res.oid, None)
        return r if is_any else m.not_(r)

    def call(self, st, f, args, kw):
        f = self.simp(f, st)
        if isinstance(f, Leaf):
            return self.call_leaf(st, f.v, args, kw)
        return self.split(st, [f], lambda s, v, d: self.call_leaf(
            s, v[0] if v[0] is not NUMKEY else d[0].v, args, kw))

    def call_leaf(self, st, v, args, kw):
        if isinstance(v, FuncV):
            return self.call_func(st, v, args, kw)
        if isinstance(v, BoundV):
            return self.call_leaf(st, v.func, [v.recv] + list(args), kw)
        if isinstance(v, Builtin):
            return v.fn(self, st, list(args), kw)
        if isinstance(v, TypeV):
            return v.fn(self, st, list(args), kw)
        if isinstance(v, ClassV):
            return self.instantiate(st, v, args, kw)
        if isinstance(v, ExcClass):
            r = self.new(st, "exc", v, {"args": self.leaf(TupleV(args))})
            return self.leaf(r)
        if isinstance(v, PartialV):
            k2 = dict(v.kw)
            k2.update(kw)
            return self.call(st, v.func, list(v.args) + list(args), k2)
        if isinstance(v, Ref) and st.heap[v.oid].kind == "inst":
            f = self.class_lookup(st, st.heap[v.oid].cls, "__call__")
            if f is not None:
                return self.call_method(st, f, self.leaf(v), args, kw)
        if isinstance(v, OpaqueV):
            if v.name.split(".")[0] in ("logging", "warnings", "typing", "weakref", "threading") and "." in v.name:
                return self.leaf(OpaqueV(v.name + "()"))
            raise Unsupported(f"call of {v.name}")
        if isinstance(v, Wrapper) and v.kind == "static":
            return self.call_leaf(st, v.func, args, kw)
        if isinstance(v, SuperV):
            raise Unsupported("call super")
        self.opaque(v, st=st)
        self.raise_if(st, self.m.T, TypeError, f"'{self.tname(st, v)}' object is not callable")

    def instantiate(self, st, cls, args, kw):
        if cls.is_enum:
            if len(args) == 1:
                for k, q in st.heap[cls.ns].data.items():
                    if isinstance(q, Leaf) and isinstance(q.v, Ref) and st.heap[q.v.oid].cls is cls:
                        if st.heap[q.v.oid].data["value"] is args[0] or q is args[0]:
                            return q
                raise Unsupported("enum lookup")
            raise Unsupported("enum call")
        if self.class_lookup(st, cls, "__new__") is not None:
            raise Unsupported("__new__")
        kind = "exc" if cls.exc else "inst"
        data = {"args": self.leaf(TupleV(args))} if cls.exc else {}
        ref = self.new(st, kind, cls, data, tag=self.loc())
        d = self.leaf(ref)
        f = self.class_lookup(st, cls, "__init__")
        if f is not None:
            self.call_method(st, f, d, args, kw)
        elif (args or kw) and not cls.exc:
            if any(not isinstance(b, (ClassV, ExcClass)) and not (isinstance(b, TypeV) and b.name == "object")
                   for k in cls.mro for b in k.bases):
                raise Unsupported("class with an unmodelled base")
            self.raise_if(st, self.m.T, TypeError, f"{cls.name}() takes no arguments")
        return d

    def call_func(self, st, f, args, kw):
        if len(self.frames) > MAX_DEPTH:
            raise Unsupported("call depth")
        self.tick()
        m = self.m
        node = f.node
        a = node.args
        env = {}
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        kw = dict(kw)
        args = list(args)
        nm = f.qual

        def fail(msg):
            self.raise_if(st, m.T, TypeError, f"{nm}() {msg}")
        if len(args) > len(names):
            if a.vararg is None:
                fail(f"takes {len(names)} positional arguments but {len(args)} were given")
            env[a.vararg.arg] = self.leaf(TupleV(args[len(names):]))
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = self.leaf(TupleV([]))
        for x, v in zip(names, args):
            env[x] = v
        for i in range(len(args), len(names)):
            x = names[i]
            if x in kw and i >= len(a.posonlyargs):
                env[x] = kw.pop(x)
            else:
                j = i - (len(names) - len(f.defaults))
                if j >= 0:
                    env[x] = f.defaults[j]
                else:
                    fail(f"missing required argument '{x}'")
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                fail(f"missing keyword-only argument '{x.arg}'")
        if a.kwarg is not None:
            r = self.new(st, "dict", None, tuple((self.leaf(k), m.T, v) for k, v in kw.items()))
            env[a.kwarg.arg] = self.leaf(r)
        elif kw:
            fail(f"got an unexpected keyword argument '{next(iter(kw))}'")
        if f.file not in self.entered:
            self.entered[f.file] = set()
        self.entered[f.file].add(f.qual)
        if f.file and self.frames and self.is_contract(self.frames[-1].func) and not self.is_contract(f):
            self.api_calls.append((f.qual, f.file, getattr(f.node, "lineno", 0)))
        oid = self.new(st, "frame", None, env).oid
        fr = Frame(f, oid)
        fr.globals_ = set(f.locals[1])
        fr.nonlocals = set(f.locals[2])
        if f.is_gen:
            fr.yields = self.new(st, "list", None, self.leaf(TupleV([]))).oid
        self.frames.append(fr)
        self.stack.append(node.lineno)
        s = st
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body, st)
                fr.returns.append((st, v))
            else:
                s = st.clone()
                r = self.exec_block(node.body, s)
                if r is not None:
                    fr.returns.append((r, self.none))
        finally:
            self.frames.pop()
            self.stack.pop()
        if not fr.returns:
            st.pc = m.F
            raise Dead
        s, v = self.merge_vals(fr.returns)
        st.become(s)
        if not fr.captured:
            st.heap.pop(oid, None)
            st.own.discard(oid)
        if f.is_gen:
            d = st.heap[fr.yields].data
            r = self.new(st, "iter", None, (d, self.leaf(iconst(0))))
            return self.leaf(r)
        return self.simp(v, st)

    # -- isinstance -------------------------------------------------------------------
    def type_match(self, st, v, t):
        """v: leaf value, t: class leaf value -> bool"""
        if isinstance(t, TupleV):
            return any(self.type_match(st, v, x.v) for x in t.items)
        if isinstance(t, TypeV):
            n = t.name
            if n == "object":
                return True
            if isinstance(v, bool):
                return n in ("bool", "int")
            if isinstance(v, INum):
                return n in ("int", "Number", "Real", "Integral")
            if isinstance(v, (Num, InfV)):
                return n in ("float", "Number", "Real")
            if isinstance(v, (str, StrX)):
                return n == "str"
            if isinstance(v, TupleV):
                return n in ("tuple", "Sequence", "Iterable")
            if isinstance(v, Ref):
                o = st.heap[v.oid]
                if n in ("Sequence", "Iterable", "Collection"):
                    return o.kind == "list" or (n != "Sequence" and o.kind in ("dict", "set"))
                return o.kind == n
            if isinstance(v, (ClassV, TypeV, ExcClass)):
                return n == "type"
            if isinstance(v, RangeV):
                return n == "range"
            if v is None:
                return n == "NoneType"
            return False
        if isinstance(t, ClassV):
            if isinstance(v, Ref):
                o = st.heap[v.oid]
                return o.kind in ("inst", "exc") and isinstance(o.cls, ClassV) and t in o.cls.mro
            return False
        if isinstance(t, ExcClass):
            if isinstance(v, Ref) and st.heap[v.oid].kind == "exc":
                return self.exc_matches(st, v, t)
            return False
        raise Unsupported("isinstance type")

    def isinstance_(self, st, v, t):
        t = self.simp(t, st)
        if not isinstance(t, Leaf):
            raise Unsupported("gated isinstance type")
        if isinstance(t.v, Ref):
            self.raise_if(st, self.m.T, TypeError, "isinstance() arg 2 must be a type")
        return self.m.map(lambda x: self.leaf(self.type_match(st, x, t.v)), self.simp(v, st))


class _Key:
    __slots__ = ("vs", "_h")

    def __init__(self, vs):
        self.vs = vs
        self._h = hash(tuple((type(v), v) for v in vs))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, _Key) and all(type(a) is type(b) and a == b for a, b in zip(self.vs, o.vs))


def _uns(msg):
    raise Unsupported(msg)


def number_text(spec):
    """does a number formatted with this spec print as digits, sign, point and exponent only?"""
    return not spec or spec[0] == "." and spec[1:-1].isdigit() and spec[-1] in "fge" or spec in ("f", "g", "e")


def text_groups(parts):
    """(the characters no number prints, what stands between them)"""
    res, groups = "", [[]]
    for p in parts:
        if not isinstance(p, str):
            groups[-1].append(p)
            continue
        for c in p:
            if c in "0123456789.e+-":
                if groups[-1] and isinstance(groups[-1][-1], str):
                    groups[-1][-1] += c
                else:
                    groups[-1].append(c)
            else:
                res += c
                groups.append([])
    return res, groups


def str_words(v):
    """str.split() of a string with formatted numbers: numbers contain no white space"""
    out, cur = [], []
    for p in v.parts:
        if isinstance(p, str):
            ws = p.split()
            if p[:1].isspace() or not ws:
                if cur:
                    out.append(cur)
                cur = []
            for i, w in enumerate(ws):
                if i:
                    out.append(cur)
                    cur = []
                cur.append(w)
            if ws and p[-1:].isspace():
                out.append(cur)
                cur = []
        elif p[1] in ("obj", "exc") or not number_text(p[1]):
            raise Unsupported("split of a string with formatted objects")
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    return ["".join(w) if all(isinstance(p, str) for p in w) else StrX(w) for w in out]


def str_cat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    pa = [a] if isinstance(a, str) else list(a.parts)
    pb = [b] if isinstance(b, str) else list(b.parts)
    out = []
    for p in pa + pb:
        if isinstance(p, str) and p == "":
            continue
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return StrX(out)
