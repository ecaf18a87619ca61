"""Models of Python builtins and of the standard modules the package uses."""
from __future__ import annotations
import math
from fractions import Fraction
from . import alg, gates, prims
from .alg import Num
from .gates import Leaf
from .values import *

EXC = ["BaseException", "Exception", "ArithmeticError", "ZeroDivisionError", "OverflowError",
       "FloatingPointError", "ValueError", "TypeError", "AttributeError", "NameError",
       "UnboundLocalError", "IndexError", "KeyError", "LookupError", "RuntimeError",
       "NotImplementedError", "RecursionError", "StopIteration", "AssertionError", "ImportError",
       "OSError", "Warning", "DeprecationWarning", "UserWarning", "GeneratorExit", "KeyboardInterrupt",
       "ModuleNotFoundError"]


def as_num(v):
    return iconst(int(v)) if isinstance(v, bool) else v


def is_num(v):
    return isinstance(v, (Num, bool))


def need(it, st, args, lo, hi, name):
    if not (lo <= len(args) <= hi):
        raise Unsupported(f"{name}() with {len(args)} arguments")


def numeric(it, st, d, name):
    """the DD restricted to numbers; objects with __float__ converted; else TypeError."""
    from .absint import NUMKEY

    def fn(s, vs, ds):
        v = vs[0]
        if v is NUMKEY:
            return it.m.map(lambda z: it.leaf(as_num(z)), ds[0])
        if isinstance(v, Ref) and s.heap[v.oid].kind == "inst":
            f = it.class_lookup(s, s.heap[v.oid].cls, "__float__")
            if f is not None:
                return numeric(it, s, it.call_method(s, f, ds[0], []), name)
        if isinstance(v, InfV):
            raise Unsupported(f"{name} of infinity")
        it.opaque(v, st=s)
        it.raise_if(s, it.m.T, TypeError, f"{name}: must be real number, not {it.tname(s, v)}")
    return it.split(st, [d], fn)


def math1(name, prim, bad=None, exc=ValueError, integer=False):
    def fn(it, st, args, kw):
        need(it, st, args, 1, 1, name)
        x = numeric(it, st, args[0], name)
        if bad is not None:
            g = it.m.map(lambda v: bad(it, v), x)
            it.raise_if(st, g, exc, f"math domain error in {name}")
            x = it.simp(x, st)
        r = it.m.map(lambda v: prim(v), x)
        if integer:
            r = it.m.map(lambda v: it.leaf(mkint(v)), r)
        else:
            r = it.m.map(lambda v: it.leaf(Num(v.n, v.den)) if isinstance(v, INum) else it.leaf(v), r)
        return it.simp(r, st)
    return Builtin(name, fn)


def math2(name, prim, bad=None, exc=ValueError):
    def fn(it, st, args, kw):
        need(it, st, args, 2, 2, name)
        x, y = (numeric(it, st, a, name) for a in args)
        if bad is not None:
            g = it.m.apply(lambda a, b: bad(it, a, b), x, y)
            it.raise_if(st, g, exc, f"math domain error in {name}")
            x, y = it.simp(x, st), it.simp(y, st)
        r = it.m.apply(lambda a, b: prim(a, b), x, y)
        r = it.m.map(lambda v: it.leaf(Num(v.n, v.den)) if isinstance(v, INum) else it.leaf(v), r)
        return it.simp(r, st)
    return Builtin(name, fn)


def sg(it, v, test):
    m = it.m
    return m.map(lambda s: m.leaf(test(s)), gates.sign_num(v))


def out_of_unit(it, v):
    m = it.m
    a = sg(it, alg.sub(v, alg.num(1)), lambda s: s > 0)
    b = sg(it, alg.add(v, alg.num(1)), lambda s: s < 0)
    return m.or_(a, b)


def m_hypot(it, st, args, kw):
    xs = [numeric(it, st, a, "hypot") for a in args]
    return it.simp(it.m.applyn(lambda *v: prims.hypot_(*v), tuple(xs)), st)


def m_dist(it, st, args, kw):
    p, q = it.iterate(st, args[0]), it.iterate(st, args[1])

    def fn(s, vs, ds):
        a, b = vs[0].items, vs[1].items
        xs = [it.binop(s, "sub", u, v) for u, v in zip(a, b)]
        return m_hypot(it, s, xs, {})
    return it.split(st, [p, q], fn)


def m_isclose(it, st, args, kw):
    names = ["a", "b", "rel_tol", "abs_tol"]
    if len(args) > 2:
        raise Unsupported("isclose() arguments")
    rel = kw.get("rel_tol", it.leaf(alg.num(1e-9)))
    ab = kw.get("abs_tol", it.leaf(alg.num(0)))
    a, b = (numeric(it, st, x, "isclose") for x in args)
    d = it.m.apply(lambda x, y: prims.absn(alg.sub(x, y)), a, b)
    ma = it.m.map(prims.absn, a)
    mb = it.m.map(prims.absn, b)
    big = b_minmax(it, st, [ma, mb], True)
    tol = b_minmax(it, st, [it.num_bin(st, "mul", rel, big), ab], True)
    return it.num_cmp("le", d, tol)


def m_log(it, st, args, kw):
    need(it, st, args, 1, 2, "log")
    x = numeric(it, st, args[0], "log")
    g = it.m.map(lambda v: sg(it, v, lambda s: s <= 0), x)
    it.raise_if(st, g, ValueError, "math domain error in log")
    r = it.m.map(lambda v: prims.log_(v), it.simp(x, st))
    if len(args) == 2:
        return it.num_bin(st, "truediv", r, m_log(it, st, [args[1]], {}))
    return it.simp(r, st)


def m_pow(it, st, args, kw):
    need(it, st, args, 2, 2, "pow")
    x, y = (numeric(it, st, a, "pow") for a in args)
    r = it.num_pow(st, x, y)
    return it.m.map(lambda v: it.leaf(Num(v.n, v.den)), r)


def m_const(v):
    return v


def m_copysign(it, st, args, kw):
    need(it, st, args, 2, 2, "copysign")
    x, y = (numeric(it, st, a, "copysign") for a in args)
    return it.simp(it.m.apply(lambda a, b: it.m.ite(sg(it, b, lambda s: s >= 0), prims.absn(a),
                   it.m.map(lambda q: it.leaf(alg.neg(q)), prims.absn(a))), x, y), st)


def m_prod(it, st, args, kw):
    def fn(s, vs, ds):
        acc = kw.get("start", it.leaf(iconst(1)))
        for x in vs[0].items:
            acc = it.binop(s, "mul", acc, x)
        return acc
    return it.split(st, [it.iterate(st, args[0])], fn)


def math_module(it):
    L = it.leaf
    ns = {
        "pi": L(alg.num(math.pi)), "tau": L(alg.num(2 * alg.PI)), "e": L(alg.num(math.e)),
        "inf": L(InfV(1)), "nan": L(InfV(0)),
        "sqrt": L(math1("sqrt", prims.sqrt_, lambda it, v: sg(it, v, lambda s: s < 0))),
        "fabs": L(math1("fabs", prims.absn)),
        "cos": L(math1("cos", prims.cos_)), "sin": L(math1("sin", prims.sin_)),
        "tan": L(math1("tan", prims.tan_)),
        "acos": L(math1("acos", prims.acos_, out_of_unit)),
        "asin": L(math1("asin", prims.asin_, out_of_unit)),
        "atan": L(math1("atan", prims.atan_)),
        "atan2": L(math2("atan2", prims.atan2_)),
        "hypot": L(Builtin("hypot", m_hypot)),
        "dist": L(Builtin("dist", m_dist)),
        "fmod": L(math2("fmod", prims.fmod_, lambda it, a, b: sg(it, b, lambda s: s == 0))),
        "floor": L(math1("floor", prims.floor_, integer=True)),
        "ceil": L(math1("ceil", prims.ceil_, integer=True)),
        "trunc": L(math1("trunc", prims.trunc_, integer=True)),
        "exp": L(math1("exp", prims.exp_)),
        "log": L(Builtin("log", m_log)),
        "pow": L(Builtin("pow", m_pow)),
        "degrees": L(math1("degrees", lambda v: prims.leaf(alg.mul(v, alg.num(180 / alg.PI))))),
        "radians": L(math1("radians", lambda v: prims.leaf(alg.mul(v, alg.num(alg.PI / 180))))),
        "copysign": L(Builtin("copysign", m_copysign)),
        "isclose": L(Builtin("isclose", m_isclose)),
        "fsum": L(Builtin("fsum", lambda it, st, a, k: b_float(it, st, [b_sum(it, st, a, {})], {}))),
        "prod": L(Builtin("prod", m_prod)),
        "isinf": L(Builtin("isinf", lambda it, st, a, k: it.m.map(
            lambda v: it.leaf(isinstance(v, InfV) and v.sg != 0), a[0]))),
        "isnan": L(Builtin("isnan", lambda it, st, a, k: it.m.map(
            lambda v: it.leaf(isinstance(v, InfV) and v.sg == 0), a[0]))),
        "isfinite": L(Builtin("isfinite", lambda it, st, a, k: it.m.map(
            lambda v: it.leaf(not isinstance(v, InfV)), a[0]))),
    }
    return ns


def impure(name):
    def fn(it, st, args, kw):
        it.effects.append((name, st.pc, it.loc()))
        k = sum(1 for e in it.effects)
        return it.leaf(alg.sym(f"{name}#{k}"))
    return Builtin(name, fn)


def native_module(it, name):
    L = it.leaf
    top = name.split(".")[0]
    ns = None
    if name == "math":
        ns = math_module(it)
    elif name in ("typing", "typing_extensions", "collections.abc", "types", "abc", "__future__"):
        ns = {"*opaque": True, "TYPE_CHECKING": L(False)}
        ident = Builtin("identity", lambda it, s, a, k: a[0])
        for k in ("overload", "final", "no_type_check", "abstractmethod", "runtime_checkable", "override"):
            ns[k] = L(ident)
        ns["cast"] = L(Builtin("cast", lambda it, s, a, k: a[1]))
        ns["ABC"] = L(TypeV("object", None))
        if name == "collections.abc":
            for k in ("Sequence", "Iterable", "Collection"):
                ns[k] = L(TypeV(k, None))
    elif name == "numbers":
        ns = {k: L(TypeV(k, None)) for k in ("Number", "Real", "Integral")}
    elif name == "enum":
        def auto(it, s, a, k):
            it._auto = getattr(it, "_auto", 0) + 1
            return it.leaf(iconst(it._auto))
        ns = {"Enum": L(TypeV("Enum", None)), "IntEnum": L(TypeV("IntEnum", None)),
              "unique": L(Builtin("unique", lambda it, s, a, k: a[0])),
              "auto": L(Builtin("auto", auto))}
    elif name == "functools":
        def reduce(it, s, a, k):
            items = it.iterate(s, a[1])

            def fn(s2, vs, ds):
                xs = list(vs[0].items)
                if len(a) > 2:
                    acc = a[2]
                else:
                    if not xs:
                        it.raise_if(s2, it.m.T, TypeError, "reduce() of empty sequence")
                    acc = xs.pop(0)
                for x in xs:
                    acc = it.call(s2, a[0], [acc, x], {})
                return acc
            return it.split(s, [items], fn)

        def wraps(it, s, a, k):
            return it.leaf(Builtin("wraps", lambda it, s, b, k: b[0]))
        ns = {"reduce": L(Builtin("reduce", reduce)),
              "cmp_to_key": L(Builtin("cmp_to_key", lambda it, s, a, k: it.leaf(CmpKey(a[0])))),
              "partial": L(Builtin("partial", lambda it, s, a, k: it.leaf(PartialV(a[0], tuple(a[1:]), dict(k))))),
              "wraps": L(Builtin("wraps", wraps)),
              "cached_property": L(Builtin("cached_property", b_wrapper("cprop")))}
        for k in ("lru_cache", "cache"):
            def late(it, s, a, kw, k=k):
                mod = it.import_module(s, "vp_models.functools")
                return it.call(s, it.module_attr(s, mod, k), a, kw)
            ns[k] = L(Builtin(k, late))
    elif name == "copy":
        def copy_(deep):
            def fn(it, s, a, k):
                return deepcopy(it, s, a[0], deep)
            return fn
        ns = {"copy": L(Builtin("copy", copy_(False))), "deepcopy": L(Builtin("deepcopy", copy_(True)))}
    elif name == "itertools":
        def combos(it, s, a, k):
            import itertools
            r = it.concrete_int(s, a[1])
            d = it.m.map(lambda t: it.leaf(TupleV([it.leaf(TupleV(c)) for c in itertools.combinations(t.items, r)])),
                         it.iterate(s, a[0]))
            return mkiter(it, s, d)

        def pairwise(it, s, a, k):
            d = it.m.map(lambda t: it.leaf(TupleV([it.leaf(TupleV(c)) for c in zip(t.items, t.items[1:])])),
                         it.iterate(s, a[0]))
            return mkiter(it, s, d)
        ns = {"combinations": L(Builtin("combinations", combos)),
              "pairwise": L(Builtin("pairwise", pairwise))}
    elif name == "operator":
        def op2(op):
            return Builtin(op, lambda it, s, a, k: it.binop(s, op, a[0], a[1]))

        def cmp2(op):
            return Builtin(op, lambda it, s, a, k: it.compare(s, op, a[0], a[1]))

        def attrgetter(it, s, a, k):
            nm = a[0].v
            return it.leaf(Builtin("attrgetter", lambda it, s, b, k: it.getattr_(s, b[0], nm)))

        def methodcaller(it, s, a, k):
            nm = a[0].v
            return it.leaf(Builtin("methodcaller", lambda it, s, b, k2: it.call(
                s, it.getattr_(s, b[0], nm), list(a[1:]), {})))
        ns = {k: L(op2(k)) for k in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow")}
        ns.update({k: L(cmp2(k)) for k in ("eq", "ne", "lt", "le", "gt", "ge")})
        ns["attrgetter"] = L(Builtin("attrgetter", attrgetter))
        ns["neg"] = L(Builtin("neg", lambda it, s, a, k: it.unary(s, "neg", a[0])))
        ns["not_"] = L(Builtin("not_", lambda it, s, a, k: it.m.not_(it.truth(s, a[0]))))
        ns["truth"] = L(Builtin("truth", lambda it, s, a, k: it.truth(s, a[0])))
        ns["is_"] = L(Builtin("is_", lambda it, s, a, k: it.is_(s, a[0], a[1])))
        ns["contains"] = L(Builtin("contains", lambda it, s, a, k: it.contains(s, a[0], a[1])))
        ns["getitem"] = L(Builtin("getitem", lambda it, s, a, k: it.getitem(s, a[0], a[1])))
        ns["and_"] = L(op2("and"))
        ns["or_"] = L(op2("or"))
        ns["xor"] = L(op2("xor"))

        def itemgetter(it, s, a, k):
            def get(it, s, b, k):
                r = [it.getitem(s, b[0], i) for i in a]
                return r[0] if len(r) == 1 else it.leaf(TupleV(r))
            return it.leaf(Builtin("itemgetter", get))
        ns["itemgetter"] = L(Builtin("itemgetter", itemgetter))
        ns["methodcaller"] = L(Builtin("methodcaller", methodcaller))
    elif name == "sys":
        fi = ModuleV()
        fi.name, fi.file, fi.ns = "sys.float_info", None, 0
        fi.native = {"max": L(alg.num(1.7976931348623157e308)), "min": L(alg.num(2.2250738585072014e-308)),
                     "epsilon": L(alg.num(2.220446049250313e-16))}
        ns = {"float_info": L(fi), "maxsize": L(iconst(2 ** 63 - 1))}
    elif name in ("random", "time", "secrets", "uuid", "datetime"):
        ns = _Impure(it, name)
    elif name in ("os", "io", "pathlib", "logging", "warnings", "socket", "subprocess", "threading", "json",
                  "pickle", "collections", "dataclasses", "numpy", "weakref", "string", "re"):
        ns = {"*opaque": True}
    if ns is None:
        return None
    mod = ModuleV()
    mod.name, mod.native, mod.file = name, ns, None
    mod.ns = it.new(it.st, "ns", None, {}).oid
    return mod


class _Impure(dict):
    def __init__(self, it, name):
        super().__init__()
        self.it, self.mod = it, name

    def get(self, k, default=None):
        if k == "*opaque":
            return None
        if k not in self:
            self[k] = self.it.leaf(impure(f"{self.mod}.{k}"))
        return self[k]


class CmpKey:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


def mkiter(it, st, d):
    return it.leaf(it.new(st, "iter", None, (d, it.leaf(iconst(0)))))


def deepcopy(it, st, d, deep, memo=None):
    memo = {} if memo is None else memo

    def fn(s, vs, ds):
        v = vs[0]
        if isinstance(v, Ref):
            if v.oid in memo:
                return it.leaf(memo[v.oid])
            o = s.heap[v.oid]
            if o.kind == "inst":
                for nm in (("__deepcopy__",) if deep else ("__copy__",)):
                    f = it.class_lookup(s, o.cls, nm)
                    if f is not None:
                        return it.call_method(s, f, ds[0], [it.none] if deep else [])
                r = it.new(s, "inst", o.cls, {})
                memo[v.oid] = r
                for k, x in o.data.items():
                    y = deepcopy(it, s, x, True, memo) if deep else x
                    s.w(r.oid).data[k] = y
                return it.leaf(r)
            if o.kind == "list":
                r = it.new(s, "list", None, o.data)
                memo[v.oid] = r
                if deep:
                    if not isinstance(o.data, Leaf):
                        raise Unsupported("deepcopy of gated list")
                    s.w(r.oid).data = it.leaf(TupleV([deepcopy(it, s, x, True, memo) for x in o.data.v.items]))
                return it.leaf(r)
            if o.kind in ("dict", "set"):
                r = it.new(s, o.kind, None, o.data)
                return it.leaf(r)
            raise Unsupported("copy of " + o.kind)
        if isinstance(v, TupleV) and deep:
            return it.leaf(TupleV([deepcopy(it, s, x, True, memo) for x in v.items]))
        return ds[0]
    return it.split(st, [d], fn)


# ---------------------------------------------------------------- builtins
def b_len(it, st, args, kw):
    from .absint import NUMKEY

    def fn(s, vs, ds):
        v = vs[0]
        if isinstance(v, TupleV):
            return it.leaf(iconst(len(v.items)))
        if isinstance(v, str):
            return it.leaf(iconst(len(v)))
        if isinstance(v, RangeV):
            return it.leaf(iconst(len(v.items())))
        if isinstance(v, Ref):
            o = s.heap[v.oid]
            if o.kind == "list":
                return it.m.map(lambda t: it.leaf(iconst(len(t.items))), o.data)
            if o.kind in ("dict", "set"):
                acc = it.leaf(iconst(0))
                for k, p, _ in o.data:
                    acc = it.m.apply(lambda a, b: it.leaf(mkint(alg.add(a, alg.num(1)))) if b else it.leaf(a), acc, p)
                return acc
            if o.kind == "inst":
                f = it.class_lookup(s, o.cls, "__len__")
                if f is not None:
                    return it.call_method(s, f, ds[0], [])
        it.opaque(v, st=s)
        it.raise_if(s, it.m.T, TypeError, f"object of type '{it.tname(s, v)}' has no len()")
    need(it, st, args, 1, 1, "len")
    return it.split(st, [args[0]], fn)


def b_range(it, st, args, kw):
    need(it, st, args, 1, 3, "range")

    def f(*vs):
        c = []
        for v in vs:
            if not is_num(v):
                return it.leaf(None)
            v = as_num(v)
            if not v.is_const():
                raise Unsupported("symbolic range")
            if not isinstance(v, INum):
                return it.leaf(None)
            c.append(int(v.const()))
        if len(c) == 1:
            return it.leaf(RangeV(0, c[0], 1))
        if len(c) == 2:
            return it.leaf(RangeV(c[0], c[1], 1))
        return it.leaf(RangeV(*c))
    r = it.m.applyn(f, tuple(it.simp(a, st) for a in args))
    it.raise_if(st, it.m.map(lambda v: it.leaf(v is None), r), TypeError, "range() needs integers")
    return it.simp(r, st)


def b_abs(it, st, args, kw):
    from .absint import NUMKEY

    def fn(s, vs, ds):
        v = vs[0]
        if v is NUMKEY:
            return it.m.map(lambda z: it.m.map(
                lambda q: it.leaf(it.typed(q, as_num(z))), prims.absn(as_num(z))), ds[0])
        if isinstance(v, Ref) and s.heap[v.oid].kind == "inst":
            f = it.class_lookup(s, s.heap[v.oid].cls, "__abs__")
            if f is not None:
                return it.call_method(s, f, ds[0], [])
        if isinstance(v, InfV):
            return it.leaf(InfV(abs(v.sg)))
        it.opaque(v, st=s)
        it.raise_if(s, it.m.T, TypeError, "bad operand type for abs()")
    need(it, st, args, 1, 1, "abs")
    return it.split(st, [args[0]], fn)


def b_minmax(it, st, args, ismax, key=None, default=None):
    m = it.m
    if len(args) == 1:
        items = it.iterate(st, args[0])

        def fn(s, vs, ds):
            if not vs[0].items:
                if default is not None:
                    return default
                it.raise_if(s, m.T, ValueError, "min()/max() of an empty sequence")
            return b_minmax(it, s, list(vs[0].items) if len(vs[0].items) > 1 else
                            [vs[0].items[0], vs[0].items[0]], ismax, key)
        return it.split(st, [items], fn)
    best = args[0]
    kb = it.call(st, key, [best], {}) if key is not None else best
    for x in args[1:]:
        if x is best:
            continue
        kx = it.call(st, key, [x], {}) if key is not None else x
        c = it.truth(st, it.compare(st, "gt" if ismax else "lt", kx, kb))
        best = it.simp(it.mux(c, x, best), st)
        kb = it.simp(it.mux(c, kx, kb), st)
    return best


def b_minmax_fn(ismax):
    def fn(it, st, args, kw):
        key = kw.get("key")
        if isinstance(key, Leaf) and key.v is None:
            key = None
        return b_minmax(it, st, args, ismax, key, kw.get("default"))
    return fn


def b_sum(it, st, args, kw):
    items = it.iterate(st, args[0])
    start = args[1] if len(args) > 1 else kw.get("start", it.leaf(iconst(0)))

    def fn(s, vs, ds):
        acc = start
        for x in vs[0].items:
            acc = it.binop(s, "add", acc, x)
        return acc
    return it.split(st, [items], fn)


def b_any(is_any):
    def fn(it, st, args, kw):
        items = it.iterate(st, args[0])

        def f(s, vs, ds):
            r = it.m.F if is_any else it.m.T
            for x in vs[0].items:
                t = it.truth(s, x)
                r = it.m.or_(r, t) if is_any else it.m.and_(r, t)
            return r
        return it.split(st, [items], f)
    return fn


def less(it, st, a, b, key_is_cmp):
    if key_is_cmp is not None:
        r = it.call(st, key_is_cmp, [a, b], {})
        return it.truth(st, it.compare(st, "lt", r, it.leaf(iconst(0))))
    return it.truth(st, it.compare(st, "lt", a, b))


class _Undecided(Exception):
    pass


def decided_sort(it, st, ks, cmpf):
    """the order, when every comparison the sort makes has one outcome; else None."""
    class K:
        __slots__ = ("i",)

        def __init__(self, i):
            self.i = i

        def __lt__(self, o):
            c = it.simp(less(it, st, ks[self.i], ks[o.i], cmpf), st)
            if c is it.m.T:
                return True
            if c is it.m.F:
                return False
            raise _Undecided
    try:
        return [k.i for k in sorted(map(K, range(len(ks))))]
    except _Undecided:
        return None


def sort_items(it, st, items, kw):
    """stable sort as a compare-exchange network (gates decide the order)."""
    key = kw.get("key")
    if isinstance(key, Leaf) and key.v is None:
        key = None
    rev = kw.get("reverse")
    rv = False
    if rev is not None:
        t = it.truth(st, rev)
        if t is it.m.T:
            rv = True
        elif t is not it.m.F:
            raise Unsupported("gated reverse")
    cmpf = None
    if key is not None and isinstance(key, Leaf) and isinstance(key.v, CmpKey):
        cmpf, key = key.v.f, None

    def fn(s, vs, ds):
        xs = list(vs[0].items)
        if len(xs) > 64:
            raise Unsupported("sort of a long list")
        if rv:
            xs.reverse()
        ks = [it.call(s, key, [x], {}) for x in xs] if key is not None else list(xs)
        n = len(xs)
        r = decided_sort(it, s, ks, cmpf)
        if r is not None:
            xs = [xs[i] for i in r]
            if rv:
                xs.reverse()
            return it.leaf(TupleV(xs))
        if n > 16:
            raise Unsupported("sort of a long list")
        for i in range(n):
            for j in range(n - 1 - i):
                c = less(it, s, ks[j + 1], ks[j], cmpf)
                if c is it.m.F:
                    continue
                a, b = xs[j], xs[j + 1]
                xs[j], xs[j + 1] = it.simp(it.mux(c, b, a), s), it.simp(it.mux(c, a, b), s)
                if key is not None:
                    p, q = ks[j], ks[j + 1]
                    ks[j], ks[j + 1] = it.simp(it.mux(c, q, p), s), it.simp(it.mux(c, p, q), s)
                else:
                    ks = list(xs)
        if rv:
            xs.reverse()
        return it.leaf(TupleV(xs))
    return it.split(st, [items], fn)


def b_sorted(it, st, args, kw):
    r = sort_items(it, st, it.iterate(st, args[0]), kw)
    return it.leaf(it.new(st, "list", None, r))


def b_reversed(it, st, args, kw):
    return mkiter(it, st, it.m.map(lambda t: it.leaf(TupleV(t.items[::-1])), it.iterate(st, args[0])))


def b_enumerate(it, st, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", it.leaf(iconst(0)))
    k = it.concrete_int(st, start)
    d = it.m.map(lambda t: it.leaf(TupleV([it.leaf(TupleV([it.leaf(iconst(i + k)), x]))
                                           for i, x in enumerate(t.items)])), it.iterate(st, args[0]))
    return mkiter(it, st, d)


def b_zip(it, st, args, kw):
    ds = [it.iterate(st, a) for a in args]
    if not ds:
        return mkiter(it, st, it.leaf(TupleV([])))
    d = it.m.applyn(lambda *ts: it.leaf(TupleV([it.leaf(TupleV(c)) for c in zip(*[t.items for t in ts])])), tuple(ds))
    return mkiter(it, st, d)


def b_map(it, st, args, kw):
    ds = [it.iterate(st, a) for a in args[1:]]

    def fn(s, vs, dd):
        out = []
        for tup in zip(*[v.items for v in vs]):
            out.append(it.call(s, args[0], list(tup), {}))
        return it.leaf(TupleV(out))
    return mkiter(it, st, it.split(st, ds, fn))


def b_filter(it, st, args, kw):
    d = it.iterate(st, args[1])

    def fn(s, vs, dd):
        acc = it.leaf(TupleV([]))
        for x in vs[0].items:
            if isinstance(args[0], Leaf) and args[0].v is None:
                c = it.truth(s, x)
            else:
                c = it.truth(s, it.call(s, args[0], [x], {}))
            acc = it.m.ite(c, it.concat(acc, it.leaf(TupleV([x]))), acc)
        return acc
    return mkiter(it, st, it.split(st, [d], fn))


def b_isinstance(it, st, args, kw):
    need(it, st, args, 2, 2, "isinstance")
    return it.isinstance_(st, args[0], args[1])


def b_issubclass(it, st, args, kw):
    a, b = args[0].v, args[1].v
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return it.leaf(b in a.mro)
    raise Unsupported("issubclass")


def b_type(it, st, args, kw):
    need(it, st, args, 1, 1, "type")

    def one(v):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind in ("inst", "exc"):
                return it.leaf(o.cls)
            return it.builtins[o.kind]
        if isinstance(v, bool):
            return it.builtins["bool"]
        if isinstance(v, INum):
            return it.builtins["int"]
        if isinstance(v, Num):
            return it.builtins["float"]
        if isinstance(v, (str, StrX)):
            return it.builtins["str"]
        if isinstance(v, TupleV):
            return it.builtins["tuple"]
        if v is None:
            return it.leaf(NONETYPE)
        raise Unsupported("type()")
    return it.m.map(one, it.simp(args[0], st))


NONETYPE = TypeV("NoneType", None)


def b_float(it, st, args, kw):
    from .absint import NUMKEY
    if not args:
        return it.leaf(alg.num(0))

    def fn(s, vs, ds):
        v = vs[0]
        if v is NUMKEY:
            return it.m.map(lambda z: it.leaf(Num(as_num(z).n, as_num(z).den)), ds[0])
        if isinstance(v, InfV):
            return ds[0]
        if isinstance(v, str):
            t = v.strip().lower()
            if t in ("inf", "+inf", "infinity", "-inf", "-infinity", "nan"):
                return it.leaf(InfV(0 if t == "nan" else (-1 if t[0] == "-" else 1)))
            try:
                return it.leaf(alg.num(float(t)))
            except ValueError:
                it.raise_if(s, it.m.T, ValueError, "could not convert string to float")
        if isinstance(v, Ref) and s.heap[v.oid].kind == "inst":
            f = it.class_lookup(s, s.heap[v.oid].cls, "__float__")
            if f is not None:
                r = it.call_method(s, f, ds[0], [])
                bad = it.m.map(lambda q: it.leaf(not isinstance(q, Num) or isinstance(q, INum)), r)
                it.raise_if(s, bad, TypeError, "__float__ returned non-float")
                return it.simp(r, s)
        it.opaque(v, st=s)
        it.raise_if(s, it.m.T, TypeError, f"float() argument must be a number, not '{it.tname(s, v)}'")
    return it.split(st, [args[0]], fn)


def b_int(it, st, args, kw):
    from .absint import NUMKEY
    if not args:
        return it.leaf(iconst(0))

    def fn(s, vs, ds):
        v = vs[0]
        if v is NUMKEY:
            def one(z):
                z = as_num(z)
                if isinstance(z, INum):
                    return it.leaf(z)
                return it.m.map(lambda q: it.leaf(mkint(q)), prims.trunc_(z))
            return it.m.map(one, ds[0])
        if isinstance(v, str):
            try:
                return it.leaf(iconst(int(v)))
            except ValueError:
                it.raise_if(s, it.m.T, ValueError, "invalid literal for int()")
        if isinstance(v, Ref) and s.heap[v.oid].kind == "inst":
            f = it.class_lookup(s, s.heap[v.oid].cls, "__int__")
            if f is not None:
                return it.call_method(s, f, ds[0], [])
        it.opaque(v, st=s)
        it.raise_if(s, it.m.T, TypeError, "int() argument")
    return it.split(st, [args[0]], fn)


def b_bool(it, st, args, kw):
    return it.truth(st, args[0]) if args else it.m.F


def b_str(it, st, args, kw):
    return it.to_str(st, args[0]) if args else it.leaf("")


def b_repr(it, st, args, kw):
    return it.to_str(st, args[0], repr_=True)


def b_list(it, st, args, kw):
    d = it.iterate(st, args[0]) if args else it.leaf(TupleV([]))
    return it.leaf(it.new(st, "list", None, d))


def b_tuple(it, st, args, kw):
    return it.iterate(st, args[0]) if args else it.leaf(TupleV([]))


def b_dict(it, st, args, kw):
    r = it.new(st, "dict", None, ())
    if args:
        d = it.simp(args[0], st)
        if isinstance(d, Leaf) and isinstance(d.v, Ref) and st.heap[d.v.oid].kind == "dict":
            st.w(r.oid).data = st.heap[d.v.oid].data
        else:
            items = it.iterate(st, d)
            if not isinstance(items, Leaf):
                raise Unsupported("dict() of gated list")
            for x in items.v.items:
                kv = it.iterate(st, x).v.items
                it.dict_set(st, r.oid, kv[0], kv[1])
    for k, v in kw.items():
        it.dict_set(st, r.oid, it.leaf(k), v)
    return it.leaf(r)


def b_set(it, st, args, kw):
    r = it.new(st, "set", None, ())
    if args:
        items = it.iterate(st, args[0])

        def fn(s, vs, ds):
            for x in vs[0].items:
                it.dict_set(s, r.oid, x, it.none)
            return it.none
        it.split(st, [items], fn)
    return it.leaf(r)


def b_round(it, st, args, kw):
    from .absint import NUMKEY
    need(it, st, args, 1, 2, "round")
    nd = None
    if len(args) == 2 or "ndigits" in kw:
        d = it.simp(args[1] if len(args) == 2 else kw["ndigits"], st)
        if not (isinstance(d, Leaf) and d.v is None):
            nd = it.concrete_int(st, d)

    def fn(s, vs, ds):
        v = vs[0]
        if v is NUMKEY:
            def one(z):
                z = as_num(z)
                if nd is None:
                    return it.m.map(lambda q: it.leaf(mkint(q)), prims.round_(z))
                k = alg.num(Fraction(10) ** nd)
                return it.m.map(lambda q: it.leaf(it.typed(alg.div(q, k), z)), prims.round_(alg.mul(z, k)))
            return it.m.map(one, ds[0])
        if isinstance(v, Ref) and s.heap[v.oid].kind == "inst":
            f = it.class_lookup(s, s.heap[v.oid].cls, "__round__")
            if f is not None:
                return it.call_method(s, f, ds[0], args[1:])
        it.opaque(v, st=s)
        it.raise_if(s, it.m.T, TypeError, "round() of a non-number")
    return it.split(st, [args[0]], fn)


def b_pow(it, st, args, kw):
    need(it, st, args, 2, 2, "pow")
    return it.binop(st, "pow", args[0], args[1])


def b_divmod(it, st, args, kw):
    return it.leaf(TupleV([it.binop(st, "floordiv", args[0], args[1]), it.binop(st, "mod", args[0], args[1])]))


def b_print(it, st, args, kw):
    it.effects.append(("print", st.pc, it.loc()))
    for a in args:
        it.to_str(st, a)
    return it.none


def b_hasattr(it, st, args, kw):
    nm = it.simp(args[1], st)
    if not (isinstance(nm, Leaf) and isinstance(nm.v, str)):
        raise Unsupported("hasattr name")
    name = nm.v

    def fn(s, vs, ds):
        it.sinks.append([])
        try:
            s2 = s.clone()
            try:
                r = it.attr_leaf(s2, vs[0], ds[0], name, True)
            except Dead:
                r = None
        finally:
            it.sinks.pop()
        if r is None or isinstance(r, Leaf):
            return it.leaf(r is not None)
        return it.m.map(lambda x: it.leaf(x is not UNDEF), r)
    return it.split(st, [args[0]], fn)


def b_getattr(it, st, args, kw):
    nm = it.simp(args[1], st)
    if not (isinstance(nm, Leaf) and isinstance(nm.v, str)):
        raise Unsupported("getattr name")
    return it.getattr_(st, args[0], nm.v, default=args[2] if len(args) > 2 else None)


def b_setattr(it, st, args, kw):
    nm = it.simp(args[1], st)
    if not (isinstance(nm, Leaf) and isinstance(nm.v, str)):
        raise Unsupported("setattr name")
    it.setattr_(st, args[0], nm.v, args[2])
    return it.none


def b_hash(it, st, args, kw):
    from .absint import NUMKEY

    def fn(s, vs, ds):
        v = vs[0]
        if isinstance(v, Ref):
            o = s.heap[v.oid]
            if o.kind == "inst":
                if it.unhashable(s, o.cls):
                    it.raise_if(s, it.m.T, TypeError, f"unhashable type: '{o.cls.name}'")
                f = it.class_lookup(s, o.cls, "__hash__")
                if f is not None:
                    return it.call_method(s, f, ds[0], [])
                return it.leaf(mkint(alg.sym(f"id#{v.oid}", integer=True)))
            it.raise_if(s, it.m.T, TypeError, f"unhashable type: '{o.kind}'")
        if v is NUMKEY:
            return it.m.map(lambda z: it.leaf(mkint(Num(alg.pgen(alg.fgen("hash", (as_num(z),), integer=True))))), ds[0])
        if isinstance(v, TupleV):
            acc = []
            for x in v.items:
                acc.append(b_hash(it, s, [x], {}))

            def comb(*hs):
                return it.leaf(mkint(Num(alg.pgen(alg.fgen("hash", tuple(hs) or (alg.num(0),), integer=True)))))
            return it.m.applyn(comb, tuple(acc)) if acc else comb()
        if isinstance(v, str) or v is None:
            return it.leaf(mkint(alg.sym(f"hash({v!r})", integer=True)))
        if isinstance(v, bool):
            return b_hash(it, s, [it.leaf(iconst(int(v)))], {})
        if isinstance(v, (TypeV, ClassV)):
            return it.leaf(mkint(alg.sym(f"hash(type {v.name})", integer=True)))
        raise Unsupported("hash")
    return it.split(st, [args[0]], fn)


def b_iter(it, st, args, kw):
    d = it.simp(args[0], st)
    if isinstance(d, Leaf) and isinstance(d.v, Ref) and st.heap[d.v.oid].kind == "iter":
        return d
    return mkiter(it, st, it.iterate(st, args[0]))


def b_next(it, st, args, kw):
    d = it.simp(args[0], st)
    if not (isinstance(d, Leaf) and isinstance(d.v, Ref) and st.heap[d.v.oid].kind in ("iter", "list")):
        raise Unsupported("next()")
    o = st.heap[d.v.oid]
    m = it.m
    if o.kind == "list":       # eager generator expression
        items, pos = o.data, it.leaf(iconst(0))
    else:
        items, pos = o.data
    end = m.apply(lambda t, k: it.leaf(int(k.const()) >= len(t.items)), items, pos)
    if len(args) < 2:
        it.raise_if(st, end, StopIteration, "")
        items, pos = it.simp(items, st), it.simp(pos, st)
    dflt = args[1] if len(args) > 1 else it.none
    r = m.apply(lambda t, k: t.items[int(k.const())] if int(k.const()) < len(t.items) else dflt, items, pos)
    if o.kind == "iter":
        st.w(d.v.oid).data = (items, m.map(lambda k: it.leaf(iconst(int(k.const()) + 1)), pos))
    if it.beyond(st, r):
        raise Dead
    return it.simp(r, st)


def b_id(it, st, args, kw):
    def one(v):
        if isinstance(v, Ref):
            return it.leaf(mkint(alg.sym(f"id#{v.oid}", integer=True)))
        raise Unsupported("id()")
    return it.m.map(one, it.simp(args[0], st))


def b_callable(it, st, args, kw):
    def one(v):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            return it.leaf(o.kind == "inst" and it.class_lookup(st, o.cls, "__call__") is not None)
        return it.leaf(isinstance(v, (FuncV, BoundV, Builtin, ClassV, TypeV, ExcClass, PartialV)))
    return it.m.map(one, it.simp(args[0], st))


OBJECT_INIT = Builtin("object.__init__", lambda it, st, args, kw: it.none)


def b_wrapper(kind):
    def fn(it, st, args, kw):
        g = args[0]
        if not isinstance(g, Leaf):
            raise Unsupported("decorator")
        return it.leaf(Wrapper(kind, g.v, args[1].v if len(args) > 1 else None))
    return fn


def b_super(it, st, args, kw):
    return it.leaf(SuperV(args[0].v, it.simp(args[1], st)))


def b_open(it, st, args, kw):
    it.effects.append(("open", st.pc, it.loc()))
    raise Unsupported("open()")


def b_vars(it, st, args, kw):
    return it.getattr_(st, args[0], "__dict__")


def b_dict_op(op):
    """x.__dict__[k], k in x.__dict__, x.__dict__.get, .pop and .setdefault for an instance x"""
    def f(it, st, args, kw):
        nm = it.simp(args[1], st)
        if not (isinstance(nm, Leaf) and isinstance(nm.v, str)):
            raise Unsupported("__dict__ key")
        name = nm.v
        default = args[2] if len(args) > 2 else it.none if op in ("get", "setdefault") else None

        def fn(s, vs, ds):
            v = vs[0]
            if not (isinstance(v, Ref) and s.heap[v.oid].kind == "inst"):
                raise Unsupported("__dict__")
            x = s.heap[v.oid].data.get(name)
            x = it.leaf(UNDEF) if x is None else it.simp(x, s)
            if op == "has":
                return it.m.map(lambda q: it.leaf(q is not UNDEF), x)
            if op == "pop":
                s.w(v.oid).data[name] = it.leaf(UNDEF)
            if default is None:
                if isinstance(x, Leaf) and x.v is UNDEF:
                    it.raise_if(s, it.m.T, KeyError, repr(name))
                return it.defined(s, x, KeyError, repr(name))
            x = it.m.map(lambda q: default if q is UNDEF else it.leaf(q), x)
            if op == "setdefault":
                s.w(v.oid).data[name] = x
            return x
        return it.split(st, [args[0]], fn)
    return f


def make(it):
    L = it.leaf
    d = {}
    for n in EXC:
        d[n] = L(ExcClass(getattr(__builtins__, n) if not isinstance(__builtins__, dict) else __builtins__[n]))
    fns = {"len": b_len, "range": b_range, "abs": b_abs, "min": b_minmax_fn(False), "max": b_minmax_fn(True),
           "sum": b_sum, "any": b_any(True), "all": b_any(False), "sorted": b_sorted, "reversed": b_reversed,
           "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter,
           "isinstance": b_isinstance, "issubclass": b_issubclass, "repr": b_repr,
           "round": b_round, "pow": b_pow, "divmod": b_divmod, "print": b_print, "hasattr": b_hasattr,
           "getattr": b_getattr, "setattr": b_setattr, "hash": b_hash, "iter": b_iter, "next": b_next,
           "id": b_id, "callable": b_callable, "vars": b_vars, "super": b_super, "open": b_open, "input": b_open}
    for k in ("item", "has", "get", "pop", "setdefault"):
        fns[f"__vp_dict_{k}__"] = b_dict_op(k)
    for k, f in fns.items():
        d[k] = L(Builtin(k, f))
    d["range"] = L(TypeV("range", b_range))
    types = {"float": b_float, "int": b_int, "bool": b_bool, "str": b_str, "list": b_list, "tuple": b_tuple,
             "dict": b_dict, "set": b_set, "frozenset": b_set, "type": b_type,
             "object": lambda it, st, a, k: it.leaf(it.new(st, "inst", OBJ, {})),
             "property": b_wrapper("prop"), "staticmethod": b_wrapper("static"),
             "classmethod": b_wrapper("class")}
    for k, f in types.items():
        d[k] = L(TypeV(k, f))
    d["NotImplemented"] = L(NOTIMPL)
    d["Ellipsis"] = L(ELLIPSIS)
    d["__name__"] = L("<module>")
    d["__debug__"] = L(True)
    return d


OBJ = None


def type_attr(it, t, name):
    if t.name == "float" and name in ("max",):
        return it.leaf(alg.num(1.7976931348623157e308))
    return None


# ------------------------------------------------------------ methods of builtins
def method(it, kind, name):
    return METHODS.get((kind, name))


def _list(name):
    def deco(f):
        METHODS[("list", name)] = Builtin("list." + name, f)
        return f
    return deco


METHODS = {}


def each_list(it, st, recv, fn):
    """fn(state, oid) for the list(s) recv denotes."""
    def f(s, vs, ds):
        return fn(s, vs[0].oid)
    return it.split(st, [recv], f)


@_list("append")
def l_append(it, st, args, kw):
    def fn(s, oid):
        s.w(oid).data = it.m.map(lambda t: it.leaf(TupleV(t.items + (args[1],))), s.heap[oid].data)
        return it.none
    return each_list(it, st, args[0], fn)


@_list("extend")
def l_extend(it, st, args, kw):
    def fn(s, oid):
        items = it.iterate(s, args[1])
        s.w(oid).data = it.concat(s.heap[oid].data, items)
        return it.none
    return each_list(it, st, args[0], fn)


@_list("insert")
def l_insert(it, st, args, kw):
    def fn(s, oid):
        k = it.concrete_int(s, args[1])

        def ins(t):
            x = list(t.items)
            x.insert(k, args[2])
            return it.leaf(TupleV(x))
        s.w(oid).data = it.m.map(ins, s.heap[oid].data)
        return it.none
    return each_list(it, st, args[0], fn)


@_list("pop")
def l_pop(it, st, args, kw):
    i = args[1] if len(args) > 1 else it.leaf(iconst(-1))
    return each_list(it, st, args[0], lambda s, oid: it.list_pop(s, oid, i))


@_list("clear")
def l_clear(it, st, args, kw):
    def fn(s, oid):
        s.w(oid).data = it.leaf(TupleV([]))
        return it.none
    return each_list(it, st, args[0], fn)


@_list("reverse")
def l_reverse(it, st, args, kw):
    def fn(s, oid):
        s.w(oid).data = it.m.map(lambda t: it.leaf(TupleV(t.items[::-1])), s.heap[oid].data)
        return it.none
    return each_list(it, st, args[0], fn)


@_list("copy")
def l_copy(it, st, args, kw):
    return each_list(it, st, args[0], lambda s, oid: it.leaf(it.new(s, "list", None, s.heap[oid].data)))


@_list("sort")
def l_sort(it, st, args, kw):
    def fn(s, oid):
        r = sort_items(it, s, s.heap[oid].data, kw)
        s.w(oid).data = r
        return it.none
    return each_list(it, st, args[0], fn)


@_list("index")
def l_index(it, st, args, kw):
    def fn(s, oid):
        def g(s2, vs, ds):
            r = it.leaf(None)
            for i in reversed(range(len(vs[0].items))):
                x = vs[0].items[i]
                c = it.m.or_(it.is_safe(s2, x, args[1]), it.truth(s2, it.compare(s2, "eq", x, args[1])))
                r = it.mux(c, it.leaf(iconst(i)), r)
            it.raise_if(s2, it.m.map(lambda v: it.leaf(v is None), r), ValueError, "is not in list")
            return it.simp(r, s2)
        return it.split(s, [s.heap[oid].data], g)
    return each_list(it, st, args[0], fn)


@_list("count")
def l_count(it, st, args, kw):
    def fn(s, oid):
        def g(s2, vs, ds):
            acc = it.leaf(iconst(0))
            for x in vs[0].items:
                c = it.truth(s2, it.compare(s2, "eq", x, args[1]))
                acc = it.m.apply(lambda a, b: it.leaf(mkint(alg.add(a, alg.num(1)))) if b else it.leaf(a), acc, c)
            return acc
        return it.split(s, [s.heap[oid].data], g)
    return each_list(it, st, args[0], fn)


@_list("remove")
def l_remove(it, st, args, kw):
    def fn(s, oid):
        i = l_index(it, s, [it.leaf(Ref(oid)), args[1]], {})
        it.list_pop(s, oid, i)
        return it.none
    return each_list(it, st, args[0], fn)


for _n in ("index", "count"):
    def _mk(n):
        def fn(it, st, args, kw):
            r = it.leaf(it.new(st, "list", None, args[0]))
            return METHODS[("list", n)].fn(it, st, [r] + args[1:], kw)
        return fn
    METHODS[("tuple", _n)] = Builtin("tuple." + _n, _mk(_n))
METHODS[("list", "__len__")] = Builtin("list.__len__", b_len)


def _dict(name):
    def deco(f):
        METHODS[("dict", name)] = Builtin("dict." + name, f)
        return f
    return deco


@_dict("get")
def d_get(it, st, args, kw):
    def fn(s, vs, ds):
        found, val = it.dict_find(s, vs[0].oid, args[1])
        dflt = args[2] if len(args) > 2 else it.none
        return dflt if val is None else it.mux(found, val, dflt)
    return it.split(st, [args[0]], fn)


@_dict("pop")
def d_pop(it, st, args, kw):
    def fn(s, vs, ds):
        if len(args) > 2:
            found, val = it.dict_find(s, vs[0].oid, args[1])
            if it.m.and_(s.pc, found) is it.m.F:
                return args[2]
            if it.m.and_(s.pc, it.m.not_(found)) is not it.m.F:
                raise Unsupported("dict.pop default")
        return it.dict_pop(s, vs[0].oid, args[1])
    return it.split(st, [args[0]], fn)


@_dict("setdefault")
def d_setdefault(it, st, args, kw):
    def fn(s, vs, ds):
        found, val = it.dict_find(s, vs[0].oid, args[1])
        dflt = args[2] if len(args) > 2 else it.none
        v = dflt if val is None else it.mux(found, val, dflt)
        it.dict_set(s, vs[0].oid, args[1], v)
        return v
    return it.split(st, [args[0]], fn)


@_dict("keys")
def d_keys(it, st, args, kw):
    """keys view: a set-like snapshot in insertion order"""
    def f(s, vs, ds):
        data = tuple((k, p, it.none) for k, p, v in s.heap[vs[0].oid].data)
        return it.leaf(it.new(s, "set", None, data))
    return it.split(st, [args[0]], f)


def _ditems(sel):
    def fn(it, st, args, kw):
        def f(s, vs, ds):
            acc = it.leaf(TupleV([]))
            for k, p, v in s.heap[vs[0].oid].data:
                x = it.leaf(TupleV([sel(it, k, v)]))
                acc = it.concat(acc, x) if p is it.m.T else it.m.ite(p, it.concat(acc, x), acc)
            return it.simp(acc, s)
        return it.split(st, [args[0]], f)
    return fn


METHODS[("dict", "values")] = Builtin("dict.values", _ditems(lambda it, k, v: v))
METHODS[("dict", "items")] = Builtin("dict.items", _ditems(lambda it, k, v: it.leaf(TupleV([k, v]))))


@_dict("clear")
def d_clear(it, st, args, kw):
    def fn(s, vs, ds):
        s.w(vs[0].oid).data = ()
        return it.none
    return it.split(st, [args[0]], fn)


METHODS[("set", "clear")] = METHODS[("dict", "clear")]


def s_add(it, st, args, kw):
    def fn(s, vs, ds):
        it.dict_set(s, vs[0].oid, args[1], it.none)
        return it.none
    return it.split(st, [args[0]], fn)


METHODS[("set", "add")] = Builtin("set.add", s_add)


def _as_set(it, st, d):
    """any iterable as a set object"""
    d = it.simp(d, st)
    if isinstance(d, Leaf) and isinstance(d.v, Ref) and st.heap[d.v.oid].kind == "set":
        return d
    return b_set(it, st, [d], {})


def _sop(op):
    def fn(it, st, args, kw):
        r = args[0]
        if op == "or" and len(args) == 1:
            return b_set(it, st, [r], {})
        for a in args[1:]:
            r = it.binop(st, op, r, _as_set(it, st, a))
        return r
    return fn


for _n, _o in (("union", "or"), ("intersection", "and"), ("difference", "sub"), ("symmetric_difference", "xor")):
    METHODS[("set", _n)] = Builtin("set." + _n, _sop(_o))
METHODS[("set", "copy")] = Builtin("set.copy", _sop("or"))
for _n, _o in (("issubset", "le"), ("issuperset", "ge")):
    METHODS[("set", _n)] = Builtin("set." + _n, lambda it, st, a, k, o=_o: it.compare(st, o, a[0], _as_set(it, st, a[1])))
METHODS[("set", "isdisjoint")] = Builtin("set.isdisjoint", lambda it, st, a, k: it.m.not_(it.truth(
    st, it.binop(st, "and", a[0], _as_set(it, st, a[1])))))


def d_update(it, st, args, kw):
    def fn(s, vs, ds):
        if not (isinstance(vs[1], Ref) and s.heap[vs[1].oid].kind in ("dict", "set")):
            raise Unsupported("update()")
        for k, p, v in s.heap[vs[1].oid].data:
            if p is not it.m.T and it.m.and_(s.pc, it.m.not_(p)) is not it.m.F:
                raise Unsupported("update()")
            it.dict_set(s, vs[0].oid, k, v)
        return it.none
    for a in args[1:]:
        it.split(st, [args[0], a], fn)
    for k, v in kw.items():
        it.split(st, [args[0]], lambda s, vs, ds: (it.dict_set(s, vs[0].oid, it.leaf(k), v), it.none)[1])
    return it.none


METHODS[("dict", "update")] = Builtin("dict.update", d_update)
METHODS[("set", "update")] = Builtin("set.update", lambda it, st, a, k: d_update(it, st, [a[0]] + [_as_set(it, st, x) for x in a[1:]], {}))


def d_copy(it, st, args, kw):
    return it.split(st, [args[0]], lambda s, vs, ds: it.leaf(it.new(s, "dict", None, s.heap[vs[0].oid].data)))


METHODS[("dict", "copy")] = Builtin("dict.copy", d_copy)


def str_method(name):
    def fn(it, st, args, kw):
        ds = [it.simp(a, st) for a in args]
        if name == "format":
            if not (isinstance(ds[0], Leaf) and isinstance(ds[0].v, str)):
                raise Unsupported("format")
            import string
            parts, k = [], 0
            for lit, field, spec, conv in string.Formatter().parse(ds[0].v):
                parts.append(lit)
                if field is None:
                    continue
                if field == "":
                    v = ds[1 + k]
                    k += 1
                elif field.isdigit():
                    v = ds[1 + int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    raise Unsupported("format field")
                parts.append((v, spec or ""))
            return it.fmt(st, parts)
        if name == "join":
            items = it.iterate(st, ds[1])

            def f(s, vs, dd):
                acc = it.leaf("")
                from .absint import str_cat
                for i, x in enumerate(vs[0].items):
                    if i:
                        acc = it.m.apply(lambda a, b: it.leaf(str_cat(a, b)), acc, ds[0])
                    bad = it.m.map(lambda q: it.leaf(not isinstance(q, (str, StrX))), x)
                    it.raise_if(s, bad, TypeError, "sequence item: expected str instance")
                    acc = it.m.apply(lambda a, b: it.leaf(str_cat(a, b)), acc, it.simp(x, s))
                return acc
            return it.split(st, [items], f)
        if name == "split" and len(ds) == 1:
            from .absint import str_words

            def words(s, vs, dd):
                if isinstance(vs[0], StrX):
                    return it.newlist(s, [it.leaf(w) for w in str_words(vs[0])])
                return it.newlist(s, [it.leaf(w) for w in vs[0].split()])
            return it.split(st, [ds[0]], words)
        vals = []
        for d in ds:
            if not (isinstance(d, Leaf) and isinstance(d.v, str)):
                raise Unsupported("string method on symbolic string")
            vals.append(d.v)
        r = getattr(vals[0], name)(*vals[1:])
        if isinstance(r, bool) or isinstance(r, str):
            return it.leaf(r)
        if isinstance(r, int):
            return it.leaf(iconst(r))
        if isinstance(r, list):
            return it.newlist(st, [it.leaf(x) for x in r])
        raise Unsupported("string method")
    return Builtin("str." + name, fn)


for _n in ("format", "join", "strip", "lstrip", "rstrip", "upper", "lower", "replace", "startswith",
           "endswith", "split", "find", "title", "capitalize", "isdigit"):
    METHODS[("str", _n)] = str_method(_n)


def n_is_integer(it, st, args, kw):
    def one(v):
        v = as_num(v)
        f = prims.floor_num(v)
        return sg(it, alg.sub(v, f), lambda s: s == 0)
    return it.m.map(one, args[0])


METHODS[("num", "is_integer")] = Builtin("float.is_integer", n_is_integer)
METHODS[("num", "__float__")] = Builtin("float.__float__", b_float)
METHODS[("num", "real")] = None
