"""Gated values: multi-way decision diagrams over polynomial thresholds.

A gated value is what static single assignment in *gated* form attaches to a
merge point: instead of losing a value at a join, the join records which branch
condition selects it (the trace-partitioning refinement of an abstract state).
Conditions are normalised to threshold tests  base <=> c  on normal-form
polynomials, so the diagram is canonical up to the order of the tests: it does
not depend on how the branches were written.
"""
from __future__ import annotations
from fractions import Fraction
from . import alg


class TooBig(Exception):
    """gate budget exhausted -> the obligation is undecided."""


class Var:
    __slots__ = ("idx", "kind", "base", "name")

    def __repr__(self):
        return self.name


class DD:
    __slots__ = ("uid",)


class Leaf(DD):
    __slots__ = ("v",)

    def __repr__(self):
        return f"{self.v!r}"


class Node(DD):
    """poly var: breaks c0<c1<..; kids has 2k+1 regions.  bool var: kids [F,T]."""
    __slots__ = ("var", "breaks", "kids")

    def __repr__(self):
        return f"<{self.var} {self.breaks} {self.kids}>"


class Mgr:
    def __init__(self, budget=400000):
        self.path_memo = {}
        self.vars = []
        self.vtab = {}
        self.leaves = {}
        self.nodes = {}
        self.count = 0
        self.budget = budget
        self.T = self.leaf(True)
        self.F = self.leaf(False)
        self.memo_and = {}
        self.memo_not = {}
        self.memo_simp = {}
        self.sign_memo = {}

    def var(self, kind, key, name):
        k = (kind, key)
        v = self.vtab.get(k)
        if v is None:
            v = Var()
            v.idx = len(self.vars)
            v.kind, v.base, v.name = kind, key, name
            self.vars.append(v)
            self.vtab[k] = v
        return v

    def leaf(self, v):
        key = (type(v), v)
        l = self.leaves.get(key)
        if l is None:
            l = Leaf()
            l.v = v
            self.count += 1
            l.uid = self.count
            self.leaves[key] = l
        return l

    def node(self, var, breaks, kids):
        if var.kind == "p":
            # drop breakpoints that separate nothing
            nb, nk = [], [kids[0]]
            for i, c in enumerate(breaks):
                at, right = kids[2 * i + 1], kids[2 * i + 2]
                if at is nk[-1] and right is nk[-1]:
                    continue
                nb.append(c)
                nk.append(at)
                nk.append(right)
            if not nb:
                return nk[0]
            breaks, kids = tuple(nb), tuple(nk)
        else:
            if kids[0] is kids[1]:
                return kids[0]
            breaks, kids = (), tuple(kids)
        key = (var.idx, breaks, tuple(k.uid for k in kids))
        n = self.nodes.get(key)
        if n is None:
            self.count += 1
            if self.count > self.budget:
                raise TooBig("gate budget exhausted")
            n = Node()
            n.uid = self.count
            n.var, n.breaks, n.kids = var, breaks, kids
            self.nodes[key] = n
        return n

    # -- region alignment ------------------------------------------------
    @staticmethod
    def align(nodes):
        """common refinement of the regions of several nodes on the same var."""
        if nodes[0].var.kind != "p":
            return (), [n.kids for n in nodes]
        bs = sorted(set(b for n in nodes for b in n.breaks))
        if all(n.breaks == tuple(bs) for n in nodes):
            return tuple(bs), [n.kids for n in nodes]
        outs = []
        for n in nodes:
            if n.breaks == tuple(bs):
                outs.append(n.kids)
                continue
            ks = []
            j = 0
            own = n.breaks
            # region left of first break
            for i, c in enumerate(bs):
                # open region before c
                ks.append(n.kids[2 * j])
                if j < len(own) and own[j] == c:
                    ks.append(n.kids[2 * j + 1])
                    j += 1
                else:
                    ks.append(n.kids[2 * j])
            ks.append(n.kids[2 * j])
            outs.append(tuple(ks))
        return tuple(bs), outs

    def applyn(self, f, dds):
        """leafwise n-ary application; f maps leaf values to a DD (or leaf value DD)."""
        memo = {}

        def rec(ds):
            key = tuple(d.uid for d in ds)
            r = memo.get(key)
            if r is not None:
                return r
            top = None
            for d in ds:
                if isinstance(d, Node) and (top is None or d.var.idx < top.idx):
                    top = d.var
            if top is None:
                r = f(*[d.v for d in ds])
            else:
                ns = [d for d in ds if isinstance(d, Node) and d.var is top]
                breaks, kidss = self.align(ns)
                cols = {}
                for n, ks in zip(ns, kidss):
                    cols[id(n)] = ks
                nk = len(kidss[0])
                kids = []
                for i in range(nk):
                    kids.append(rec(tuple(
                        cols[id(d)][i] if (isinstance(d, Node) and d.var is top) else d
                        for d in ds)))
                # f may return DDs using smaller variables: rebuild with ite when needed
                if any(isinstance(k, Node) and k.var.idx <= top.idx for k in kids):
                    r = self.compose(top, breaks, kids)
                else:
                    r = self.node(top, breaks, kids)
            memo[key] = r
            return r
        return rec(tuple(dds))

    def compose(self, var, breaks, kids):
        """node whose children may mention var or smaller variables."""
        if var.kind != "p":
            t = self.node(var, (), (self.F, self.T))
            return self.ite(t, kids[1], kids[0])
        r = kids[0]
        for i, c in enumerate(breaks):
            # region >= c
            nb = (c,)
            ge = self.node(var, nb, (self.F, self.T, self.T))
            gt = self.node(var, nb, (self.F, self.F, self.T))
            r = self.ite(gt, kids[2 * i + 2], self.ite(ge, kids[2 * i + 1], r))
        return r

    def map(self, f, a):
        return self.applyn(f, (a,))

    def apply(self, f, a, b):
        return self.applyn(f, (a, b))

    # -- boolean ops -------------------------------------------------------
    def not_(self, a):
        if a is self.T:
            return self.F
        if a is self.F:
            return self.T
        r = self.memo_not.get(a.uid)
        if r is None:
            r = self.node(a.var, a.breaks, tuple(self.not_(k) for k in a.kids))
            self.memo_not[a.uid] = r
        return r

    def and_(self, a, b):
        if a is self.F or b is self.F:
            return self.F
        if a is self.T:
            return b
        if b is self.T or a is b:
            return a
        if a.uid > b.uid:
            a, b = b, a
        key = (a.uid, b.uid)
        r = self.memo_and.get(key)
        if r is not None:
            return r
        r = self._bin(self.and_, a, b)
        self.memo_and[key] = r
        return r

    def _bin(self, op, a, b):
        va = a.var if isinstance(a, Node) else None
        vb = b.var if isinstance(b, Node) else None
        if va is vb:
            breaks, (ka, kb) = self.align([a, b])
            return self.node(va, breaks, tuple(op(x, y) for x, y in zip(ka, kb)))
        if vb is None or (va is not None and va.idx < vb.idx):
            return self.node(va, a.breaks, tuple(op(x, b) for x in a.kids))
        return self.node(vb, b.breaks, tuple(op(a, y) for y in b.kids))

    def or_(self, a, b):
        return self.not_(self.and_(self.not_(a), self.not_(b)))

    def ite(self, c, a, b):
        if c is self.T or a is b:
            return a
        if c is self.F:
            return b
        if a is self.T and b is self.F:
            return c
        memo = {}

        def rec(c, a, b):
            if c is self.T or a is b:
                return a
            if c is self.F:
                return b
            key = (c.uid, a.uid, b.uid)
            r = memo.get(key)
            if r is not None:
                return r
            top = None
            for d in (c, a, b):
                if isinstance(d, Node) and (top is None or d.var.idx < top.idx):
                    top = d.var
            ns = [d for d in (c, a, b) if isinstance(d, Node) and d.var is top]
            breaks, kidss = self.align(ns)
            it = {id(n): ks for n, ks in zip(ns, kidss)}
            n = len(kidss[0])

            def col(d, i):
                return it[id(d)][i] if id(d) in it else d
            r = self.node(top, breaks, tuple(rec(col(c, i), col(a, i), col(b, i))
                                             for i in range(n)))
            memo[key] = r
            return r
        return rec(c, a, b)

    def simplify(self, a, g):
        """some diagram equal to a wherever g holds (generalised cofactor)."""
        if g is self.T or isinstance(a, Leaf):
            return a
        r = self._simp(a, g)
        return a if r is None else r

    def _simp(self, a, g):
        if g is self.F:
            return None
        if g is self.T or isinstance(a, Leaf):
            return a
        key = (a.uid, g.uid)
        if key in self.memo_simp:
            return self.memo_simp[key]
        va, vg = a.var, g.var
        if vg.idx < va.idx:
            # guard tests something a does not: existentially drop it
            gg = self.F
            for k in g.kids:
                gg = self.or_(gg, k)
            r = self._simp(a, gg)
        else:
            if va is vg:
                breaks, (ka, kg) = self.align([a, g])
                kids = [self._simp(x, y) for x, y in zip(ka, kg)]
            else:
                breaks = a.breaks
                kids = [self._simp(x, g) for x in a.kids]
            if all(k is None for k in kids):
                r = None
            else:
                # fill don't-cares from the left neighbour, else the right
                last = None
                for k in kids:
                    if k is not None:
                        last = k
                        break
                out = []
                for k in kids:
                    if k is not None:
                        last = k
                    out.append(last)
                # second preference: make point regions equal to following open region
                r = self.node(va, breaks, tuple(out))
        self.memo_simp[key] = r
        return r

    def exclude(self, a, g):
        return self.and_(a, self.not_(g))

    # -- enumeration -------------------------------------------------------
    def leaves_under(self, a, g=None):
        """distinct leaf values of a reachable under guard g with their guards."""
        out = {}
        order = []

        def collect(d, seen):
            if d.uid in seen:
                return
            seen.add(d.uid)
            if isinstance(d, Leaf):
                if d.uid not in out:
                    out[d.uid] = d
                    order.append(d)
                return
            for k in d.kids:
                collect(k, seen)
        if g is not None and g is not self.T:
            a = self.simplify(a, g)
        collect(a, set())
        return order

    def where(self, a, leaf):
        """boolean diagram: a == leaf."""
        memo = {}

        def rec(d):
            if isinstance(d, Leaf):
                return self.T if d is leaf else self.F
            r = memo.get(d.uid)
            if r is None:
                r = self.node(d.var, d.breaks, tuple(rec(k) for k in d.kids))
                memo[d.uid] = r
            return r
        return rec(a)

    def paths(self, d):
        """number of conjunctions leading to True (saturating)"""
        memo = self.path_memo
        if d is self.T:
            return 1
        if d is self.F:
            return 0
        r = memo.get(d)
        if r is None:
            r, last = 0, None
            for k in d.kids:
                if k is not last or d.var.kind != "p":
                    r += self.paths(k)
                last = k
            r = memo[d] = min(r, 10**9)
        return r

    def cells(self, a, limit=4000, prune=None):
        """conjunctions (lists of (var, region)) leading to True in boolean a;
        prune(conjunction) tells that no point satisfies it."""
        out = []
        self.pruned = 0
        thr = [4]

        def rec(d, acc):
            if len(out) >= limit:
                return
            if d is self.F:
                return
            if prune and len(acc) > 1 and self.paths(d) >= thr[0]:
                if prune(acc):
                    self.pruned += 1
                    thr[0] = max(4, thr[0] / 2)
                    return
                thr[0] = min(thr[0] * 1.2, 64)
            if d is self.T:
                out.append(list(acc))
                return
            if d.var.kind != "p":
                for i, k in enumerate(d.kids):
                    acc.append((d.var, bool(i)))
                    rec(k, acc)
                    acc.pop()
                return
            # merge maximal runs of regions with the same kid
            n = len(d.kids)
            i = 0
            while i < n:
                j = i
                while j + 1 < n and d.kids[j + 1] is d.kids[i]:
                    j += 1
                k = d.kids[i]
                if k is not self.F:
                    acc.append((d.var, region_iv(d.breaks, i, j)))
                    rec(k, acc)
                    acc.pop()
                i = j + 1
        rec(a, [])
        return out


def region_iv(breaks, i, j):
    """interval covered by regions i..j (even = open gap, odd = point)."""
    if i == 0:
        lo, lo_o = None, False
    elif i % 2:
        lo, lo_o = breaks[i // 2], False
    else:
        lo, lo_o = breaks[i // 2 - 1], True
    n = 2 * len(breaks)
    if j == n:
        hi, hi_o = None, False
    elif j % 2:
        hi, hi_o = breaks[j // 2], False
    else:
        hi, hi_o = breaks[j // 2], True
    return alg.Iv(lo, lo_o, hi, hi_o)


MGR = Mgr()


def reset(budget=400000):
    global MGR
    MGR = Mgr(budget)
    return MGR


def mgr():
    return MGR


# --------------------------------------------------------------------------
# sign of a value number as a gated value with leaves -1, 0, 1
# --------------------------------------------------------------------------
def sign_num(a):
    m = MGR
    s = sign_poly(a.n)
    for f, e in a.den:
        sf = sign_poly(f)
        if e % 2 == 0:
            continue
        # denominators are non-zero wherever the value exists
        s = m.apply(lambda x, y: m.leaf(x if y == 0 else x * y), s, sf)
    return s


def const_sign(c):
    return MGR.leaf(0 if c == 0 else (1 if c > 0 else -1))


def sign_poly(p):
    m = MGR
    if p.is_const():
        return const_sign(p.const())
    r = m.sign_memo.get(p)
    if r is not None:
        return r
    r = _sign_poly(p)
    m.sign_memo[p] = r
    return r


def _mul_sign(s, t):
    m = MGR
    return m.apply(lambda x, y: m.leaf(x * y), s, t)


def linear_split(p):
    """p = a * (g + q) for a generator g that occurs linearly, if there is one"""
    if len(p.d) < 3:
        return None
    for g in p.gens():
        a, b = {}, {}
        for mono, c in p.d.items():
            md = dict(mono)
            e = md.pop(g, 0)
            if e > 1:
                break
            (a if e else b)[tuple(sorted(md.items()))] = c
        else:
            if len(a) < 2 or len(b) < len(a):
                continue
            A = alg.Poly(a)
            q = alg.pdiv_exact(alg.Poly(b), A)
            if q is not None:
                return A, alg.padd_raw(alg.pgen(alg.CTX.gens[g]), q)
    return None


def quadratic_split(p):
    """p = c * (g + u) * (g + v) for a generator g, if there is one"""
    from . import prims
    if len(p.d) < 2 or len(p.d) > 16:
        return None
    for g in p.gens():
        co = ({}, {}, {})
        for mono, c in p.d.items():
            md = dict(mono)
            e = md.pop(g, 0)
            if e > 2:
                break
            co[e][tuple(sorted(md.items()))] = c
        else:
            if len(co[2]) != 1 or () not in co[2]:
                continue
            c = co[2][()]
            B = alg.pscale(alg.Poly(co[1]), 1 / c)
            C = alg.pscale(alg.Poly(co[0]), 1 / c)
            D = alg.padd_raw(alg.pmul_raw(B, B), C, -4)
            if D.is_zero() or D.is_const():
                continue
            r = prims.psqrt_exact(D)
            if r is None:
                continue
            G = alg.pgen(alg.CTX.gens[g])
            h = Fraction(1, 2)
            u = alg.padd_raw(G, alg.pscale(alg.padd_raw(B, r), h))
            v = alg.padd_raw(G, alg.pscale(alg.padd_raw(B, r, -1), h))
            if alg.pscale(alg.pmul_raw(u, v), c) != p:
                continue
            return alg.pconst(c), u, v
    return None


def _sign_poly(p):
    m = MGR
    iv = alg.piv(p)
    if iv.pos():
        return m.leaf(1)
    if iv.neg():
        return m.leaf(-1)
    # products
    if not p.const():
        k, fs = alg.split_factors(p)
        if not (len(fs) == 1 and fs[0][1] == 1):
            s = const_sign(k)
            for f, e in fs:
                sf = sign_poly(f)
                if e % 2 == 0:
                    sf = m.map(lambda x: m.leaf(x * x), sf)
                s = _mul_sign(s, sf)
            return s
    else:
        k, mon = alg.monic(p)
        fs = alg.CTX.factors.get(mon)
        if fs and not (len(fs) == 1 and fs[0][1] == 1):
            s = const_sign(k)
            for f, e in fs:
                sf = sign_poly(f)
                if e % 2 == 0:
                    sf = m.map(lambda x: m.leaf(x * x), sf)
                s = _mul_sign(s, sf)
            return s
        # g**2 - c  with rational root
        r = _square_minus_const(p)
        if r is not None:
            return r
    fs = linear_split(p)
    if fs is not None:
        return _mul_sign(sign_poly(fs[0]), sign_poly(fs[1]))
    fs = quadratic_split(p)
    if fs is not None:
        return _mul_sign(sign_poly(fs[0]), _mul_sign(sign_poly(fs[1]), sign_poly(fs[2])))
    # sums of non-negative parts
    k, mon = alg.monic(p)
    parts = alg.CTX.parts.get(p)
    if parts:
        s = m.leaf(0)
        for q in parts:
            s = m.apply(lambda x, y: m.leaf(1 if (x == 1 or y == 1) else 0), s, sign_poly(q))
        return s
    parts = alg.CTX.parts.get(alg.pneg(p))
    if parts:
        s = m.leaf(0)
        for q in parts:
            s = m.apply(lambda x, y: m.leaf(-1 if (x == -1 or y == 1) else 0), s, sign_poly(q))
        return s
    # one square root, linearly:  u*s + R
    r = _sqrt_sign(p)
    if r is not None:
        return r
    r = _angle_sign(p)
    if r is not None:
        return r
    r = _power_sign(p)
    if r is not None:
        return r
    k, base, c = alg.base_of(p)
    thr = -c
    f = alg.CTX.facts.get(base)
    biv = alg.piv(base)
    sk = 1 if k > 0 else -1
    v = m.var("p", base, alg.show_poly(base, 6))
    lo_ok = not (biv.lo is not None and biv.lo >= thr)
    eq_ok = not (biv.lo is not None and (biv.lo > thr or (biv.lo == thr and biv.lo_o))) and \
        not (biv.hi is not None and (biv.hi < thr or (biv.hi == thr and biv.hi_o)))
    hi_ok = not (biv.hi is not None and biv.hi <= thr)
    kids = [m.leaf(-sk), m.leaf(0), m.leaf(sk)]
    # impossible regions take a neighbour's value so that no test survives there
    if not lo_ok:
        kids[0] = kids[1] if eq_ok else kids[2]
    if not hi_ok:
        kids[2] = kids[1] if eq_ok else kids[0]
    if not eq_ok:
        kids[1] = kids[0] if lo_ok else kids[2]
    return m.node(v, (thr,), tuple(kids))


INV_TRIG = ("atan2", "acos", "asin", "atan")


def _angle_sign(p):
    """sign of an integer combination of inverse-trigonometric generators that
    stays within (-pi, pi): the sign of its sine."""
    k, q = alg.monic(p)
    for mono, c in q.d.items():
        if not mono:
            t = c / alg.PI * 12
            if t.denominator != 1 or int(t) % 2 and int(t) % 3:
                return None
            continue
        if len(mono) != 1 or mono[0][1] != 1 or c.denominator != 1 or abs(c) > 2:
            return None
        if alg.CTX.gens[mono[0][0]].kind not in INV_TRIG:
            return None
    iv = alg.piv(q)
    if iv.lo is None or iv.hi is None or iv.lo < -alg.PI or iv.hi > alg.PI:
        return None
    if iv.lo == -alg.PI and not iv.lo_o or iv.hi == alg.PI and not iv.hi_o:
        return None
    sn = alg.cos_sin(alg.Num(q))[1]
    s = sign_num(sn)
    return _mul_sign(const_sign(k), s)


def _power_sign(p):
    """sign of log(a) and of a**b - 1, for positive a"""
    k, base, c = alg.base_of(p)
    if len(base.d) != 1:
        return None
    (mono, _), = base.d.items()
    if len(mono) != 1 or mono[0][1] != 1:
        return None
    g = alg.CTX.gens[mono[0][0]]
    one = alg.num(1)
    if g.kind == "log" and c == 0:
        return _mul_sign(const_sign(k), sign_num(alg.sub(g.args[0], one)))
    if g.kind == "pow" and c == -1 and alg.num_iv(g.args[0]).pos():
        return _mul_sign(const_sign(k), _mul_sign(sign_num(alg.sub(g.args[0], one)), sign_num(g.args[1])))
    return None


def _square_minus_const(p):
    d = p.d
    if len(d) != 2 or () not in d:
        return None
    (mono, a), = [(mm, cc) for mm, cc in d.items() if mm]
    if len(mono) != 1 or mono[0][1] != 2:
        return None
    c = -d[()] / a
    m = MGR
    if c < 0:
        return const_sign(a)
    import math
    x, y = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if x * x != c.numerator or y * y != c.denominator:
        return None
    root = alg.pconst(Fraction(x, y))
    g = alg.pgen(alg.CTX.gens[mono[0][0]])
    s = _mul_sign(sign_poly(alg.psub(g, root)), sign_poly(alg.padd(g, root)))
    return _mul_sign(const_sign(a), s)


def _sqrt_sign(p):
    m = MGR
    roots = [g for g in p.gens() if alg.CTX.gens[g].kind == "sqrt"]
    if not roots:
        return None
    # choose the latest root that occurs linearly with a coefficient free of roots
    for g in sorted(roots, reverse=True):
        if alg.CTX.gens[g].square is None:
            continue
        a, b = {}, {}
        for mono, c in p.d.items():
            md = dict(mono)
            if g in md:
                del md[g]
                b[tuple(sorted(md.items()))] = c
            else:
                a[mono] = c
        R, U = alg.Poly(a), alg.Poly(b)
        D = alg.CTX.gens[g].square
        if len(roots) > 2:
            return None
        # sign(U*s + R):  with su = sign(U)*[s>0], sr = sign(R)
        sU = sign_poly(U)
        sS = sign_poly(D)          # D >= 0 wherever s exists
        sS = m.map(lambda x: m.leaf(1 if x > 0 else 0), sS)
        su = _mul_sign(sU, sS)
        if R.is_zero():
            return su
        sr = sign_poly(R)
        diff = alg.psub(alg.pmul(alg.pmul(U, U), D), alg.pmul(R, R))
        sd = sign_poly(diff)

        def f(u, r, d):
            if u == 0:
                return m.leaf(r)
            if r == 0:
                return m.leaf(u)
            if u == r:
                return m.leaf(u)
            return m.leaf(u * d if d else 0)
        return m.applyn(f, (su, sr, sd))
    return None
