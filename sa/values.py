"""Values, objects and abstract states of the analyser."""
from __future__ import annotations
from . import alg, gates


class Unsupported(Exception):
    """construct outside the analysed subset: the obligation stays undecided."""


class Dead(Exception):
    """no trace reaches the current program point any more."""


class AnchorMissing(Exception):
    """a public name a contract is anchored to no longer exists."""


class INum(alg.Num):
    """a number whose Python type is int."""
    __slots__ = ()


def mkint(n):
    return INum(n.n, n.den)


def iconst(k):
    return INum(alg.pconst(k))


class Singleton:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNDEF = Singleton("<unbound>")
ELLIPSIS = Singleton("Ellipsis")
NOTIMPL = Singleton("NotImplemented")


class InfV:
    __slots__ = ("sg",)

    def __init__(self, sg):
        self.sg = sg            # 1, -1, 0 (nan)

    def __eq__(self, o):
        return isinstance(o, InfV) and o.sg == self.sg

    def __hash__(self):
        return hash(("inf", self.sg))

    def __repr__(self):
        return {1: "inf", -1: "-inf", 0: "nan"}[self.sg]


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return f"&{self.oid}"


class TupleV:
    __slots__ = ("items", "_k")

    def __init__(self, items):
        self.items = tuple(items)
        self._k = tuple(d.uid for d in self.items)

    def __eq__(self, o):
        return isinstance(o, TupleV) and o._k == self._k

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class StrX:
    """a string with formatted symbolic pieces: ('lit', s) / ('val', uid, spec, dd)"""
    __slots__ = ("parts", "_k")

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._k = tuple(p if isinstance(p, str) else (p[0].uid, p[1]) for p in self.parts)

    def __eq__(self, o):
        return isinstance(o, StrX) and o._k == self._k

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "{%r}" % (p[0],) for p in self.parts)


class FuncV:
    __slots__ = ("node", "name", "qual", "defaults", "kwdefaults", "closure", "module",
                 "cls", "is_gen", "locals", "file", "attrs")

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundV:
    __slots__ = ("func", "recv")

    def __init__(self, func, recv):
        self.func, self.recv = func, recv

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and o.recv is self.recv

    def __hash__(self):
        return hash((id(self.func), self.recv.uid))

    def __repr__(self):
        return f"<bound {self.func} of {self.recv}>"


class PartialV:
    __slots__ = ("func", "args", "kw")

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class ClassV:
    __slots__ = ("name", "qual", "bases", "ns", "mro", "module", "is_enum", "exc", "oid")

    def __repr__(self):
        return f"<class {self.name}>"


class ModuleV:
    __slots__ = ("name", "ns", "file", "native")

    def __repr__(self):
        return f"<module {self.name}>"


class Builtin:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class TypeV:
    """builtin type usable in isinstance and as a constructor."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<type {self.name}>"


class ExcClass:
    """a builtin exception class."""
    __slots__ = ("py", "name")

    def __init__(self, py):
        self.py = py
        self.name = py.__name__

    def __eq__(self, o):
        return isinstance(o, ExcClass) and o.py is self.py

    def __hash__(self):
        return hash(self.py)

    def __repr__(self):
        return f"<class {self.name}>"


class Wrapper:
    __slots__ = ("kind", "func", "fset")

    def __init__(self, kind, func, fset=None):
        self.kind, self.func, self.fset = kind, func, fset

    def __repr__(self):
        return f"<{self.kind} {self.func}>"


class SuperV:
    __slots__ = ("cls", "recv")

    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class RangeV:
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.a, o.b, o.s) == (self.a, self.b, self.s)

    def __hash__(self):
        return hash(("range", self.a, self.b, self.s))

    def items(self):
        if self.s == 0:
            raise Unsupported("range step 0")
        return list(range(self.a, self.b, self.s))


class OpaqueV:
    """typing objects and the like: present, never inspected."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class SliceV:
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.a, o.b, o.s) == (self.a, self.b, self.s)

    def __hash__(self):
        return hash(("slice", self.a, self.b, self.s))


class Obj:
    """heap object.  kind: inst/frame/ns -> data: dict name->DD;
    list -> data: DD with TupleV leaves; dict/set -> data: tuple of (key DD, present DD, val DD);
    exc -> data dict; iter -> data (tupleDD, posDD)"""
    __slots__ = ("kind", "cls", "data", "tag")

    def __init__(self, kind, cls, data, tag=None):
        self.kind, self.cls, self.data, self.tag = kind, cls, data, tag

    def copy(self):
        d = self.data
        return Obj(self.kind, self.cls, dict(d) if isinstance(d, dict) else d, self.tag)


class State:
    __slots__ = ("pc", "heap", "own")

    def __init__(self, pc, heap, own=None):
        self.pc, self.heap = pc, heap
        self.own = set() if own is None else own

    def clone(self, pc=None):
        self.own = set()
        return State(self.pc if pc is None else pc, dict(self.heap), set())

    def become(self, o):
        self.pc, self.heap, self.own = o.pc, o.heap, o.own

    def w(self, oid):
        """object for writing."""
        if oid not in self.own:
            self.heap[oid] = self.heap[oid].copy()
            self.own.add(oid)
        return self.heap[oid]
