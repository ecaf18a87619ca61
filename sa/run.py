"""Analyse the contracts of one property and decide every obligation."""
from __future__ import annotations
import ast
import os
import sys
import threading
import time
from . import alg, gates, prims, cells
from .absint import Interp, Program, Frame, NUMKEY, as_num, is_num
from .values import *
from .alg import Iv, Num
from fractions import Fraction
from .gates import Leaf, Node, TooBig

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PARAM_IV = {
    "Real": alg.TOP, "Pos": Iv(Fraction(0), True), "NonNeg": alg.NONNEG,
    "Neg": Iv(None, False, Fraction(0), True),
    "Deg": Iv(Fraction(-180), False, Fraction(180), False),
    "DegOpen": Iv(Fraction(-180), True, Fraction(180), True),
    "Unit": Iv(Fraction(-1), False, Fraction(1), False),
    "Frac": Iv(Fraction(0), True, Fraction(1), True),
    "Frac01": Iv(Fraction(0), False, Fraction(1), False),
    "Big": Iv(Fraction(1), False),
}


def close_dd(it, d):
    """gate under which value number d is zero."""
    m = it.m
    if alg.is_zero(d):
        return m.T
    n = d.n
    if n.is_const():
        return m.F
    k, fs = alg.split_factors(n)
    r = m.F
    for f, e in fs:
        roots = [g for g in f.gens() if alg.CTX.gens[g].kind in ("sqrt", "abs")]
        iv = alg.piv(f)
        if iv.pos() or iv.neg():
            continue
        if not roots and (len(f.d) <= 8 or sum(e2 for mm in f.d for _, e2 in mm) <= len(f.d)):
            z = m.map(lambda s: m.leaf(s == 0), gates.sign_poly(f))
        else:
            kk, mon = alg.monic(f)
            v = m.var("z", mon, f"zero[{alg.show_poly(mon, 4)}]")
            z = m.node(v, (), (m.F, m.T))
        r = m.or_(r, z)
    return r


def vp_module(it):
    L = it.leaf
    m = it.m

    def assume(it, st, args, kw):
        c = it.truth(st, args[0])
        st.pc = m.and_(st.pc, c)
        if st.pc is m.F:
            raise Dead
        return it.none

    def check(it, st, args, kw):
        t = it.truth(st, args[0])
        msg = args[1].v if len(args) > 1 and isinstance(args[1], Leaf) else "check"
        it.record(st, m.and_(st.pc, m.not_(t)), str(msg), "check")
        return it.none

    def num_pair(st, a, b):
        a, b = it.simp(a, st), it.simp(b, st)

        def f(x, y):
            if is_num(x) and is_num(y):
                return close_dd(it, alg.sub(as_num(x), as_num(y)))
            if isinstance(x, InfV) or isinstance(y, InfV):
                raise Unsupported("infinity")
            return m.leaf(False) if (x is None) != (y is None) else \
                (m.T if x is None and y is None else _raise())

        def _raise():
            raise Unsupported("close() of non-numbers")
        return m.apply(f, a, b)

    def close(it, st, args, kw):
        """all pairs of numbers equal: close(a, b) / close((a1,a2),(b1,b2))"""
        a, b = args[0], args[1]
        if isinstance(a, Leaf) and isinstance(a.v, TupleV) and isinstance(b, Leaf) and isinstance(b.v, TupleV):
            r = m.T
            for x, y in zip(a.v.items, b.v.items):
                r = m.and_(r, num_pair(st, x, y))
            return r
        return num_pair(st, a, b)

    def integral(it, st, args, kw):
        def f(x):
            x = as_num(x)
            if not x.den and all(c.denominator == 1 and all(alg.CTX.gens[g].integer for g, _ in mono)
                                 for mono, c in x.n.d.items()):
                return m.T
            if x.is_const():
                return m.F
            v = m.var("i", x, f"integer[{x!r}]")
            return m.node(v, (), (m.F, m.T))
        return m.map(f, it.simp(args[0], st))

    def snapshot(it, st, args, kw):
        """identity of every module/class level object and its contents."""
        return it.leaf(Snap(it.global_view(st)))

    def same_globals(it, st, args, kw):
        old = args[0].v.view
        new = it.global_view(st)
        ok = m.T
        diffs = []
        for k in sorted(set(old) | set(new), key=str):
            a, b = old.get(k), new.get(k)
            if a is b:
                continue
            if a is None or b is None:
                ok = m.F
                diffs.append(k)
                continue
            if isinstance(a, tuple) or isinstance(b, tuple):
                if a != b:
                    ok = m.F
                    diffs.append(k)
                continue
            e = it.m.apply(lambda x, y: close_dd(it, alg.sub(as_num(x), as_num(y))) if is_num(x) and is_num(y)
                           else it.leaf(type(x) is type(y) and x == y), a, b)
            if e is not m.T:
                diffs.append(k)
            ok = m.and_(ok, e)
        if diffs:
            it.notes.append(f"shared state changed: {diffs[:4]}")
        return ok

    def effects(it, st, args, kw):
        """gate: no I/O or nondeterminism happened so far in this contract."""
        r = m.T
        for name, pc, loc in it.effects:
            r = m.and_(r, m.not_(pc))
            it.notes.append(f"effect {name} at {os.path.basename(loc[0])}:{loc[2]} {loc[1]}")
        return r

    def fresh(it, st, args, kw):
        """the result of a call made with all module and class level state as it is after import."""
        old = it.boot_heap
        kept = {k: st.heap.get(k) for k in old}
        for k, o in old.items():
            st.heap[k] = o
            st.own.discard(k)
        try:
            return it.call(st, args[0], list(args[1:]), dict(kw))
        finally:
            for k, o in kept.items():
                st.heap[k] = o
                st.own.discard(k)

    def sign_of(it, st, args, kw):
        return m.map(lambda x: m.map(lambda s: it.leaf(iconst(s)), gates.sign_num(as_num(x))), it.simp(args[0], st))

    def opaque(it, st, args, kw):
        return it.leaf(alg.sym(args[0].v))

    def deg_cos(it, st, args, kw):
        return m.map(lambda x: prims.cos_(alg.mul(as_num(x), alg.num(alg.PI / 180))), it.simp(args[0], st))

    def deg_sin(it, st, args, kw):
        return m.map(lambda x: prims.sin_(alg.mul(as_num(x), alg.num(alg.PI / 180))), it.simp(args[0], st))

    fns = dict(assume=assume, check=check, close=close, integral=integral, snapshot=snapshot,
               same_globals=same_globals, no_effects=effects, fresh=fresh, sign_of=sign_of, opaque=opaque,
               cosd=deg_cos, sind=deg_sin)
    ns = {k: L(Builtin(k, f)) for k, f in fns.items()}
    for k in list(PARAM_IV) + ["Vec", "Ang", "Int", "Bool", "IntVec"]:
        ns[k] = L(OpaqueV(k))
    return ns


class Snap:
    __slots__ = ("view",)

    def __init__(self, v):
        self.view = v


class Analyzer(Interp):
    def __init__(self, program, budget, deadline):
        super().__init__(program, budget, deadline)
        self.notes = []
        mod = ModuleV()
        mod.name, mod.native, mod.file, mod.ns = "vp", vp_module(self), None, 0
        self.modules["vp"] = mod

    def record(self, st, bad, msg, kind, loc=None):
        from .absint import Obligation
        o = Obligation()
        o.msg, o.bad, o.kind = msg, bad, kind
        o.line = self.stack[-1]
        o.loc = loc or self.loc()
        o.pc = st.pc
        o.values = list(self.notes[-3:])
        o.calls = list(dict.fromkeys(reversed(self.api_calls[-60:])))[:6]
        self.obligations.append(o)

    def global_view(self, st):
        """field -> value for every object reachable from package modules, classes and
        default arguments (not from contract modules)."""
        view = {}
        todo = []
        seen = set()

        def push(oid):
            if oid not in seen and oid in st.heap:
                seen.add(oid)
                todo.append(oid)

        def visit(d):
            for l in self.m.leaves_under(d):
                v = l.v
                if isinstance(v, Ref):
                    push(v.oid)
                elif isinstance(v, ClassV):
                    push(v.ns)
                elif isinstance(v, TupleV):
                    for x in v.items:
                        visit(x)
                elif isinstance(v, FuncV):
                    if v.module.name.startswith("contracts"):
                        continue
                    for x in v.defaults:
                        visit(x)
                    for x in v.kwdefaults.values():
                        visit(x)
                elif isinstance(v, Wrapper):
                    for g in (v.func, v.fset):
                        if isinstance(g, FuncV):
                            for x in g.defaults:
                                visit(x)
                            for x in g.kwdefaults.values():
                                visit(x)
        for name, mod in self.modules.items():
            if mod.native is None and not name.startswith("contracts"):
                push(mod.ns)
        while todo:
            oid = todo.pop()
            o = st.heap[oid]
            if isinstance(o.data, dict):
                for k, v in o.data.items():
                    view[(oid, k)] = v
                    visit(v)
            elif o.kind == "list":
                for l in self.m.leaves_under(o.data):
                    for x in l.v.items:
                        visit(x)
                view[(oid, "[]")] = o.data
            elif o.kind in ("dict", "set"):
                view[(oid, "{}")] = tuple((k.uid, p.uid, v.uid) for k, p, v in o.data)
                for k, p, v in o.data:
                    visit(v)
            elif o.kind == "iter":
                view[(oid, "it")] = o.data[1]
        return view

    # -- contract driver -----------------------------------------------------
    def run_contract(self, modname, fname):
        st = self.st
        f0 = FuncV()
        boot = ModuleV()
        boot.name, boot.native, boot.file = "<boot>", None, "<boot>"
        boot.ns = self.new(st, "ns", None, {}).oid
        f0.node, f0.name, f0.qual, f0.module, f0.file = None, "<boot>", "<boot>", boot, "<boot>"
        f0.closure, f0.cls, f0.locals = (), None, None
        self.frames.append(Frame(f0, boot.ns))
        self.stack.append(0)
        mod = self.import_module(st, modname)
        fd = st.heap[mod.ns].data[fname]
        f = fd.v
        args = []
        for a in f.node.args.args:
            ann = a.annotation
            k = ann.id if isinstance(ann, ast.Name) else None
            args.append(self.make_param(st, k, a.arg))
        self.sinks = [[]]
        self.effects = []
        self.boot_heap = dict(st.heap)
        st.own = set()              # objects of the boot state are copied before they are changed
        self.frames[-1].func.file = f.file
        try:
            self.call_func(st, f, args, {})
        except Dead:
            pass
        for s, e in self.sinks[0]:
            for l in self.m.leaves_under(e, s.pc):
                g = self.m.and_(s.pc, self.m.where(e, l))
                if g is self.m.F:
                    continue
                loc = self.raise_locs.get(l.v.oid, ("?", "?", 0, "exception"))
                self.stack[-1] = 0
                self.record(s, g, f"uncaught {loc[3]}", "raise", loc[:3])

    def make_param(self, st, k, name):
        if k in PARAM_IV:
            return self.leaf(alg.sym(name, PARAM_IV[k]))
        if k == "Int":
            return self.leaf(mkint(alg.sym(name, integer=True)))
        if k == "Bool":
            v = self.m.var("b", name, name)
            return self.m.node(v, (), (self.m.F, self.m.T))
        if k in ("Vec", "IntVec"):
            mod = self.import_module(st, "pyrusgeom.vector_2d")
            cls = st.heap[mod.ns].data.get("Vector2D")
            if cls is None:
                raise AnchorMissing("Vector2D")
            if k == "IntVec":
                xy = [self.leaf(mkint(alg.sym(name + c, integer=True))) for c in (".x", ".y")]
            else:
                xy = [self.leaf(alg.sym(name + c)) for c in (".x", ".y")]
            return self.call(st, cls, xy, {})
        if k == "Ang":
            mod = self.import_module(st, "pyrusgeom.angle_deg")
            cls = st.heap[mod.ns].data.get("AngleDeg")
            if cls is None:
                raise AnchorMissing("AngleDeg")
            return self.call(st, cls, [self.leaf(alg.sym(name + ".deg", PARAM_IV["Deg"]))], {})
        raise Exception(f"contract parameter {name}: unknown kind {k}")


def program():
    return Program([("pyrusgeom", os.path.join(REPO, "src", "pyrusgeom")),
                    ("contracts", os.path.join(HERE, "contracts"))])


def list_contracts(path):
    t = ast.parse(open(path).read(), path)
    out = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and not n.name.startswith("_") and all(a.annotation is not None for a in n.args.args):
            out.append(n.name)
    return out


def show_gate(cell):
    out = []
    for v, r in cell:
        if v.kind == "p":
            out.append(f"{v.name} in {r!r}")
        else:
            out.append(f"{v.name} is {r}")
    return out


def analyse(modname, fname, budget=300000, seconds=60, wit_seconds=6, total_wit=25):
    """-> dict result (picklable)"""
    t0 = time.process_time()
    res = {"contract": fname, "status": "ok", "obligations": [], "undecided_why": []}
    it = None
    try:
        it = Analyzer(program(), budget, t0 + seconds)
        it.run_contract(modname, fname)
    except AnchorMissing as e:
        res["status"] = "anchor"
        res["why"] = str(e)
        return res
    except (TooBig, Unsupported, RecursionError, MemoryError) as e:
        res["status"] = "incomplete"
        res["why"] = f"{type(e).__name__}: {e}"
        if it is not None and it.frames:
            res["why"] += f" at {it.loc()}"
    # obligations recorded before the budget ran out are still decided
    t1 = time.process_time()
    for o in it.obligations:
        d = {"msg": o.msg, "line": o.line, "kind": o.kind,
             "loc": [os.path.relpath(o.loc[0], REPO) if o.loc[0].startswith(REPO) else os.path.basename(o.loc[0]),
                     o.loc[1], o.loc[2]]}
        if o.bad is it.m.F:
            d["verdict"] = "proved"
        else:
            try:
                now = time.process_time()
                w, n, ne = cells.find_witness(o.bad, deadline=min(now + wit_seconds, max(t1 + total_wit, now + 0.5)))
            except (TooBig, RecursionError) as e:
                w, n, ne = None, 0, 0
            if w is not None:
                env, bools = w
                d["verdict"] = "refuted"
                d["witness"] = {alg.CTX.gens[g].name: str(v) for g, v in env.items()}
                d["witness"].update({it.m.vars[i].name: b for i, b in bools.items()})
                cs = it.m.cells(o.bad, limit=3)
                d["gate"] = [show_gate(c)[:12] for c in cs]
                d["notes"] = o.values
                d["calls"] = [f"{q} ({os.path.relpath(f, REPO)}:{l})" for q, f, l in o.calls]
            elif n and n == ne:
                d["verdict"] = "proved"
                d["cells"] = n
            else:
                d["verdict"] = "undecided"
                d["cells"] = n
                cs = it.m.cells(o.bad, limit=1)
                d["gate"] = [show_gate(c)[:12] for c in cs]
        res["obligations"].append(d)
    if it.unknown is not it.m.F:
        res["undecided_why"] = it.unknown_why[:6]
        if res["status"] == "ok":
            res["status"] = "partial"
    # an obligation is only proved for the traces that were analysed completely
    if res["status"] != "ok":
        for d in res["obligations"]:
            if d["verdict"] == "proved":
                d["verdict"] = "proved-partial"
    res["functions"] = {os.path.relpath(k, REPO): sorted(v) for k, v in it.entered.items()
                        if k.startswith(os.path.join(REPO, "src"))}
    res["callsites"] = len([c for c in it.callsites if c[0] and c[0].startswith(REPO)])
    res["joins"] = it.nif
    res["gates"] = len(it.m.vars)
    res["gens"] = len(alg.CTX.gens)
    res["analysis_s"] = round(t1 - t0, 3)
    res["wall"] = round(time.process_time() - t0, 3)
    return res


def analyse_big(*a, **k):
    """run with a large native stack (recursive-descent analysis)."""
    out = {}

    def go():
        sys.setrecursionlimit(200000)
        try:
            out["r"] = analyse(*a, **k)
        except BaseException as e:           # reported by the caller
            import traceback
            out["e"] = traceback.format_exc()
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in out:
        raise RuntimeError(out["e"])
    return out["r"]
