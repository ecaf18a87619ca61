"""Algebraic value numbers.

The numeric component of the abstract domain: every real-valued expression of
the analysed source is abstracted to a rational function over *generators*
(entry values of the analysed function, and hash-consed applications of
transcendental functions to other value numbers), kept in a normal form.  Two
expressions with the same normal form denote the same real number for every
input; this is value numbering, not evaluation -- nothing here ever looks at a
concrete coordinate.

Constants are exact rationals taken from the shortest decimal spelling of the
float (0.1 is 1/10), i.e. the domain is real arithmetic; rounding is out of
scope and said so in every contract.
"""
from __future__ import annotations
from fractions import Fraction
import math

PI = Fraction(repr(math.pi))


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


# --------------------------------------------------------------------------
# intervals: (lo, lo_open, hi, hi_open); None = unbounded
# --------------------------------------------------------------------------
class Iv:
    __slots__ = ("lo", "lo_o", "hi", "hi_o")

    def __init__(self, lo=None, lo_o=False, hi=None, hi_o=False):
        self.lo, self.lo_o, self.hi, self.hi_o = lo, lo_o, hi, hi_o

    def __repr__(self):
        a = "(-inf" if self.lo is None else ("(" if self.lo_o else "[") + str(self.lo)
        b = "inf)" if self.hi is None else str(self.hi) + (")" if self.hi_o else "]")
        return a + "," + b

    def trivial(self):
        return self.lo is None and self.hi is None

    def meet(self, o):
        lo, lo_o, hi, hi_o = self.lo, self.lo_o, self.hi, self.hi_o
        if o.lo is not None and (lo is None or o.lo > lo or (o.lo == lo and o.lo_o)):
            lo, lo_o = o.lo, o.lo_o
        if o.hi is not None and (hi is None or o.hi < hi or (o.hi == hi and o.hi_o)):
            hi, hi_o = o.hi, o.hi_o
        return Iv(lo, lo_o, hi, hi_o)

    def empty(self):
        if self.lo is None or self.hi is None:
            return False
        return self.lo > self.hi or (self.lo == self.hi and (self.lo_o or self.hi_o))

    def add(self, o):
        lo = hi = None
        lo_o = hi_o = False
        if self.lo is not None and o.lo is not None:
            lo, lo_o = self.lo + o.lo, self.lo_o or o.lo_o
        if self.hi is not None and o.hi is not None:
            hi, hi_o = self.hi + o.hi, self.hi_o or o.hi_o
        return Iv(lo, lo_o, hi, hi_o)

    def scale(self, k):
        if k == 0:
            return Iv(Fraction(0), False, Fraction(0), False)
        lo = None if self.lo is None else self.lo * k
        hi = None if self.hi is None else self.hi * k
        if k > 0:
            return Iv(lo, self.lo_o, hi, self.hi_o)
        return Iv(hi, self.hi_o, lo, self.lo_o)

    def nonneg(self):
        return self.lo is not None and self.lo >= 0

    def nonpos(self):
        return self.hi is not None and self.hi <= 0

    def pos(self):
        return self.lo is not None and (self.lo > 0 or (self.lo == 0 and self.lo_o))

    def neg(self):
        return self.hi is not None and (self.hi < 0 or (self.hi == 0 and self.hi_o))

    def mul(self, o):
        if self.lo is not None and self.lo == self.hi:
            return o.scale(self.lo)
        if o.lo is not None and o.lo == o.hi:
            return self.scale(o.lo)
        lo = hi = None
        lo_o = hi_o = False
        ninf = pinf = False
        c = []
        for a, ao, sa in ((self.lo, self.lo_o, -1), (self.hi, self.hi_o, 1)):
            for b, bo, sb in ((o.lo, o.lo_o, -1), (o.hi, o.hi_o, 1)):
                if a is None or b is None:
                    x = sa if a is None else (a > 0) - (a < 0)
                    y = sb if b is None else (b > 0) - (b < 0)
                    if x * y > 0:
                        pinf = True
                    elif x * y < 0:
                        ninf = True
                    else:           # zero times infinity: the zero side
                        op = ao if a is not None else bo
                        c.append((Fraction(0), op))
                    continue
                op = ao or bo
                if (a == 0 and not ao) or (b == 0 and not bo):
                    op = False
                c.append((a * b, op))
        if not ninf and c:
            lo = min(x for x, _ in c)
            lo_o = all(op for x, op in c if x == lo)
        if not pinf and c:
            hi = max(x for x, _ in c)
            hi_o = all(op for x, op in c if x == hi)
        r = Iv(lo, lo_o, hi, hi_o)
        if (self.nonneg() and o.nonneg()) or (self.nonpos() and o.nonpos()):
            r = r.meet(Iv(Fraction(0), (self.pos() or self.neg()) and (o.pos() or o.neg())))
        if (self.nonneg() and o.nonpos()) or (self.nonpos() and o.nonneg()):
            r = r.meet(Iv(None, False, Fraction(0),
                          (self.pos() or self.neg()) and (o.pos() or o.neg())))
        return r

    def shape(self):
        return (self.lo, self.lo_o, self.hi, self.hi_o)


TOP = Iv()
NONNEG = Iv(Fraction(0))


def point_iv(c):
    return Iv(c, False, c, False)


# --------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------
class Gen:
    __slots__ = ("gid", "kind", "args", "name", "integer", "iv", "square")

    def __repr__(self):
        return self.name


class Ctx:
    """All hash-consing tables.  One per analysis run (deterministic ids)."""

    def __init__(self):
        self.gens: list[Gen] = []
        self.table: dict = {}
        self.facts: dict = {}        # base poly -> Iv
        self.factors: dict = {}      # monic poly -> list[(poly, exp)]
        self.parts: dict = {}        # poly -> list of non-negative polys summing to it

    def gen(self, kind, args, name, integer=False, iv=TOP):
        key = (kind, args)
        g = self.table.get(key)
        if g is None:
            g = Gen()
            g.gid = len(self.gens)
            g.kind, g.args, g.name, g.integer, g.iv = kind, args, name, integer, iv
            g.square = None          # Poly replacing g**2, if algebraic
            self.gens.append(g)
            self.table[key] = g
        return g


CTX = Ctx()


def reset():
    global CTX
    CTX = Ctx()
    return CTX


def ctx():
    return CTX


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------
class Poly:
    __slots__ = ("d", "_h", "_iv")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._iv = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.d == o.d)

    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fraction(0))

    def gens(self):
        s = set()
        for m in self.d:
            for g, _ in m:
                s.add(g)
        return s

    def __repr__(self):
        return show_poly(self)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def pconst(c):
    c = frac(c)
    return Poly({(): c}) if c else ZERO


def pgen(g):
    return Poly({((g.gid, 1),): Fraction(1)})


def show_mono(m):
    out = []
    for g, e in m:
        n = CTX.gens[g].name
        out.append(n if e == 1 else f"{n}^{e}")
    return "*".join(out)


def show_frac(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    if Fraction(repr(f)) == c:
        return repr(f)
    return f"{c.numerator}/{c.denominator}"


def mono_key(m):
    return (sum(e for _, e in m), tuple((-g, e) for g, e in m))


def show_poly(p, limit=24):
    if not p.d:
        return "0"
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: mono_key(t[0]), reverse=True)[:limit]:
        if not m:
            s = show_frac(abs(c))
        elif abs(c) == 1:
            s = show_mono(m)
        else:
            s = show_frac(abs(c)) + "*" + show_mono(m)
        out.append(("- " if c < 0 else "+ ") + s)
    s = " ".join(out)
    if s.startswith("+ "):
        s = s[2:]
    if len(p.d) > limit:
        s += f" + ...({len(p.d)} terms)"
    return s


def padd_raw(a, b, k=1):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + c * k
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(a, k):
    if not k:
        return ZERO
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.d.items()})


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    r = padd_raw(a, b)
    if len(r.d) > 1:
        ia, ib = piv(a), piv(b)
        s = ia.add(ib)
        if not s.trivial():
            learn_from(r, s, a.gens() | b.gens())
        if ia.nonneg() and ib.nonneg() and r not in CTX.parts and not a.is_const() and not b.is_const() \
                and defined_with(r, a.gens() | b.gens()):
            pa = CTX.parts.get(a, [a])
            pb = CTX.parts.get(b, [b])
            CTX.parts[r] = pa + pb
    return r


def pneg(a):
    return pscale(a, Fraction(-1))


def psub(a, b):
    return padd(a, pneg(b))


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, ea = a[i]
        gb, eb = b[j]
        if ga == gb:
            out.append((ga, ea + eb))
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def reduce_poly(p):
    """apply g**2 -> g.square for algebraic generators until normal."""
    gens = CTX.gens
    todo = None
    for m in p.d:
        for g, e in m:
            if e >= 2 and gens[g].square is not None:
                todo = True
                break
        if todo:
            break
    if not todo:
        return p
    acc = ZERO
    clean = {}
    for m, c in p.d.items():
        hit = None
        for i, (g, e) in enumerate(m):
            if e >= 2 and gens[g].square is not None:
                hit = i
                break
        if hit is None:
            clean[m] = c
            continue
        g, e = m[hit]
        rest = list(m)
        if e % 2:
            rest[hit] = (g, 1)
        else:
            del rest[hit]
        t = Poly({tuple(rest): c})
        sq = gens[g].square
        for _ in range(e // 2):
            t = pmul_raw(t, sq)
        acc = padd_raw(acc, t)
    return reduce_poly(padd_raw(acc, Poly(clean)))


def pmul_raw(a, b):
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                del d[m]
    return Poly(d)


def _is_root(f):
    """f is a generator whose square is rewritten."""
    if len(f.d) != 1:
        return False
    (mono, c), = f.d.items()
    return len(mono) == 1 and CTX.gens[mono[0][0]].square is not None


def pmul(a, b):
    if not a.d or not b.d:
        return ZERO
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    r = reduce_poly(pmul_raw(a, b))
    if len(r.d) > 1:
        ka, ma = monic(a)
        kb, mb = monic(b)
        k, m = monic(r)
        if m not in CTX.factors and k == ka * kb:
            fa = CTX.factors.get(ma) or [(ma, 1)]
            fb = CTX.factors.get(mb) or [(mb, 1)]
            out = {}
            for f, e in list(fa) + list(fb):
                out[f] = out.get(f, 0) + e
            if not any(e > 1 and _is_root(f) for f, e in out.items()):
                CTX.factors[m] = sorted(out.items(), key=lambda t: repr(t[0]))
        if a == b:
            learn_from(r, NONNEG, a.gens())
        else:
            s = piv(a).mul(piv(b))
            if not s.trivial():
                learn_from(r, s, a.gens() | b.gens())
    return r


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def lead(p):
    return max(p.d, key=mono_key)


def monic(p):
    """p = k * m with m's leading coefficient 1 (k may be negative)."""
    if not p.d:
        return Fraction(0), p
    k = p.d[lead(p)]
    return k, (p if k == 1 else pscale(p, 1 / k))


def base_of(p):
    """p = k * (base + c): returns k, base (monic, no constant term), c."""
    if p.is_const():
        return Fraction(0), ZERO, p.const()
    c0 = p.const()
    q = p
    if c0:
        d = dict(p.d)
        del d[()]
        q = Poly(d)
    k, b = monic(q)
    return k, b, c0 / k


_PARTIAL = {"sqrt", "asin", "acos", "log", "pow", "inv", "tan"}


def partial_gens(gids):
    """generators among gids (and in their arguments) that are not defined everywhere."""
    tab = CTX.__dict__.setdefault("partial", {})
    out = frozenset()
    for g in gids:
        r = tab.get(g)
        if r is None:
            G = CTX.gens[g]
            r = frozenset()
            if G.kind != "sym":
                args = [a for a in (G.args if isinstance(G.args, tuple) else (G.args,)) if isinstance(a, Num)]
                for a in args:
                    r |= partial_gens(a.n.gens())
                    for f, _ in a.den:
                        r |= partial_gens(f.gens())
                    if a.den:
                        r |= {g}
                if G.kind in _PARTIAL and const_value(g) is None:
                    if not (G.kind == "sqrt" and not args[0].den and piv(args[0].n).nonneg()):
                        r |= {g}
            tab[g] = r
        out |= r
    return out


def closure_gens(gids):
    tab = CTX.__dict__.setdefault("closures", {})
    out = frozenset()
    for g in gids:
        r = tab.get(g)
        if r is None:
            r = frozenset([g])
            G = CTX.gens[g]
            if G.kind != "sym":
                for a in (G.args if isinstance(G.args, tuple) else (G.args,)):
                    if isinstance(a, Num):
                        r |= closure_gens(a.n.gens())
                        for f, _ in a.den:
                            r |= closure_gens(f.gens())
            tab[g] = r
        out |= r
    return out


def learn_from(r, iv, gids):
    """record r in iv, derived from operands over the generators gids: a fact only where these are
    defined, so not an unconditional one when r no longer mentions a partial one of them."""
    if defined_with(r, gids):
        learn(r, iv)


def defined_with(r, gids):
    pg = partial_gens(gids)
    return not pg or pg <= closure_gens(r.gens())


def learn(p, iv):
    """record an unconditional fact  p in iv."""
    if p.is_const():
        return
    k, b, c = base_of(p)
    ivb = iv.scale(1 / k).add(point_iv(-c))
    old = CTX.facts.get(b)
    CTX.facts[b] = ivb if old is None else old.meet(ivb)


def giv(g):
    return CTX.gens[g].iv


def piv(p, local=None):
    """interval of a polynomial: structural bound met with recorded facts (and, if
    given, with local intervals of generators)."""
    if p.is_const():
        return point_iv(p.const())
    acc = point_iv(Fraction(0))
    for m, c in p.d.items():
        iv = point_iv(Fraction(1))
        for g, e in m:
            gi = giv(g)
            if local and g in local:
                gi = gi.meet(local[g])
            if e % 2 == 0:
                base = gi.mul(gi)
                base = base.meet(NONNEG)
                if gi.pos() or gi.neg():
                    base = base.meet(Iv(Fraction(0), True))
                t = base
                for _ in range(e // 2 - 1):
                    t = t.mul(base)
            else:
                t = gi
                for _ in range(e - 1):
                    t = t.mul(gi)
            iv = iv.mul(t)
        acc = acc.add(iv.scale(c))
        if acc.trivial():
            break
    k, b, c = base_of(p)
    f = CTX.facts.get(b)
    if f is not None:
        acc = acc.meet(f.add(point_iv(c)).scale(k))
    return acc


def pdiv_exact(a, b):
    """a / b if b divides a exactly in the free polynomial ring, else None."""
    if b.is_const():
        return pscale(a, 1 / b.const())
    if not a.d:
        return ZERO
    lb = lead(b)
    cb = b.d[lb]
    r = dict(a.d)
    q = {}
    steps = 0
    lbd = dict(lb)
    while r:
        steps += 1
        if steps > 400:
            return None
        m = max(r, key=mono_key)
        md = dict(m)
        quo = {}
        ok = True
        for g, e in lbd.items():
            if md.get(g, 0) < e:
                ok = False
                break
        if not ok:
            return None
        for g, e in md.items():
            x = e - lbd.get(g, 0)
            if x:
                quo[g] = x
        qm = tuple(sorted(quo.items()))
        qc = r[m] / cb
        q[qm] = q.get(qm, 0) + qc
        for mb, c in b.d.items():
            mm = mmul(qm, mb)
            v = r.get(mm, 0) - qc * c
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return Poly(q)


# --------------------------------------------------------------------------
# rational functions with a factored denominator
# --------------------------------------------------------------------------
class Num:
    """n / prod(f**e); every f monic, non-constant; integer exponents > 0."""
    __slots__ = ("n", "den", "_h")

    def __init__(self, n, den=()):
        self.n = n
        self.den = den
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.den))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Num) and self.den == o.den and self.n == o.n)

    def is_const(self):
        return not self.den and self.n.is_const()

    def const(self):
        return self.n.const()

    def __repr__(self):
        if not self.den:
            return show_poly(self.n)
        dd = "*".join(f"({show_poly(f)})" + (f"^{e}" if e > 1 else "") for f, e in self.den)
        return f"[{show_poly(self.n)}]/[{dd}]"


def num(c):
    return Num(pconst(c))


def split_factors(p):
    """p = k * prod f_i**e_i using recorded multiplications and monomial content."""
    k, m = monic(p)
    rec = CTX.factors.get(m)
    if rec:
        out = {}
        for f, e in rec:
            k2, sub = split_factors(f) if f != m else (Fraction(1), [(f, 1)])
            k *= k2 ** e
            for g, x in sub:
                out[g] = out.get(g, 0) + x * e
        return k, sorted(out.items(), key=lambda t: repr(t[0]))
    if m.is_const():
        return k * m.const(), []
    # common monomial
    common = None
    for mono in m.d:
        md = dict(mono)
        if common is None:
            common = md
        else:
            common = {g: min(e, md[g]) for g, e in common.items() if g in md}
        if not common:
            break
    if common:
        cm = tuple(sorted(common.items()))
        rest = {}
        for mono, c in m.d.items():
            md = dict(mono)
            for g, e in cm:
                if md[g] == e:
                    del md[g]
                else:
                    md[g] -= e
            rest[tuple(sorted(md.items()))] = c
        out = [(pgen(CTX.gens[g]), e) for g, e in cm]
        rp = Poly(rest)
        if not rp.is_const():
            k2, sub = split_factors(rp)
            k *= k2
            out = out + [t for t in sub]
        else:
            k *= rp.const()
        return k, out
    return k, [(m, 1)]


def rationalize(p):
    """find q with p*q free of sqrt generators: returns (p*q, q)."""
    q = ONE
    cur = p
    for _ in range(6):
        target = None
        for g in sorted(cur.gens()):
            if CTX.gens[g].kind == "sqrt":
                target = g
        if target is None:
            return cur, q
        a, b = {}, {}
        for m, c in cur.d.items():
            md = dict(m)
            if target in md:
                del md[target]
                b[tuple(sorted(md.items()))] = c
            else:
                a[m] = c
        pa, pb = Poly(a), Poly(b)
        if pa.is_zero():
            conj = pgen(CTX.gens[target])
        else:
            conj = psub(pa, pmul(pb, pgen(CTX.gens[target])))
        nxt = pmul(cur, conj)
        if nxt.is_zero():
            return None
        q = pmul(q, conj)
        cur = nxt
    return None


def pdiv_alg(n, f):
    """n / f when f divides n modulo sin**2 = 1 - cos**2, else None."""
    gens = CTX.gens
    roots = [g for g in f.gens() if gens[g].kind == "sin" and gens[g].square is not None]
    if not roots or len(roots) > 3 or len(f.d) * len(n.d) > 600:
        return None
    cur = f
    for g in sorted(roots):
        a, b = {}, {}
        for m, c in cur.d.items():
            md = dict(m)
            if g in md:
                del md[g]
                b[tuple(sorted(md.items()))] = c
            else:
                a[m] = c
        if not b:
            continue
        sg = pgen(gens[g])
        conj = sg if not a else padd_raw(Poly(a), pmul_raw(Poly(b), sg), -1)
        cur = reduce_poly(pmul_raw(cur, conj))
        n = reduce_poly(pmul_raw(n, conj))
        if cur.is_zero() or len(n.d) > 2000:
            return None
    return pdiv_exact(n, cur)


def mknum(n, den):
    """normalise n / prod f**e given den as dict poly->exp."""
    if n.is_zero():
        return Num(ZERO)
    out = {}
    for f, e in den.items():
        while e > 0:
            q = pdiv_exact(n, f)
            if q is None:
                q = pdiv_alg(n, f)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out[f] = e
    if out:
        # sqrt elimination can reveal further cancellation: handled by is_zero tests
        return Num(n, tuple(sorted(out.items(), key=lambda t: repr(t[0]))))
    return Num(n)


def add(a, b):
    if not a.den and not b.den:
        return Num(padd(a.n, b.n))
    if a.den == b.den:
        return mknum(padd(a.n, b.n), dict(a.den))
    da, db = dict(a.den), dict(b.den)
    l = dict(da)
    for f, e in db.items():
        l[f] = max(l.get(f, 0), e)
    na, nb = a.n, b.n
    for f, e in l.items():
        for _ in range(e - da.get(f, 0)):
            na = pmul(na, f)
        for _ in range(e - db.get(f, 0)):
            nb = pmul(nb, f)
    return mknum(padd(na, nb), l)


def neg(a):
    return Num(pneg(a.n), a.den)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if not a.den and not b.den:
        return Num(pmul(a.n, b.n))
    d = dict(a.den)
    for f, e in b.den:
        d[f] = d.get(f, 0) + e
    # cancel before multiplying
    na, nb = a.n, b.n
    for f in list(d):
        while d.get(f):
            q = pdiv_exact(na, f)
            if q is not None:
                na = q
            else:
                q = pdiv_exact(nb, f)
                if q is None:
                    break
                nb = q
            d[f] -= 1
            if not d[f]:
                del d[f]
    return mknum(pmul(na, nb), d)


def inv(a):
    """1/a, a != 0 as a value number (caller gates the zero case)."""
    n = a.n
    num_ = ONE
    rq = rationalize(n)
    if rq is None:
        g = CTX.gen("inv", Num(n), f"inv({show_poly(n, 4)})")
        res = Num(pgen(g))
    else:
        p, q = rq
        k, fs = split_factors(p)
        den = {}
        for f, e in fs:
            den[f] = den.get(f, 0) + e
        res = mknum(pscale(q, 1 / k), den)
    for f, e in a.den:
        for _ in range(e):
            res = mul(res, Num(f))
    return res


def div(a, b):
    return mul(a, inv(b))


def is_zero(a):
    return a.n.is_zero()


def equal(a, b):
    return a == b or is_zero(sub(a, b))


def sym(name, iv=TOP, integer=False):
    g = CTX.gen("sym", name, name, integer=integer, iv=iv)
    return Num(pgen(g))


def num_iv(a):
    iv = piv(a.n)
    if not a.den:
        return iv
    s = Iv(Fraction(1), False, Fraction(1), False)
    for f, e in a.den:
        fi = piv(f)
        if e % 2 == 0:
            fi = Iv(Fraction(0), True)
        elif fi.nonneg():
            fi = Iv(Fraction(0), True)
        elif fi.nonpos():
            fi = Iv(None, False, Fraction(0), True)
        else:
            return TOP
        s = s.mul(fi) if s.lo != 1 or s.hi != 1 else fi
    # sign only
    r = TOP
    if iv.nonneg() and s.nonneg() or iv.nonpos() and s.nonpos():
        r = Iv(Fraction(0), iv.pos() or iv.neg())
    elif iv.nonneg() and s.nonpos() or iv.nonpos() and s.nonneg():
        r = Iv(None, False, Fraction(0), iv.pos() or iv.neg())
    return r


# --------------------------------------------------------------------------
# function generators
# --------------------------------------------------------------------------
def fgen(kind, args, iv=TOP, integer=False):
    name = f"{kind}({','.join(map(repr, args))})"
    if len(name) > 70:
        key = (kind, tuple(args))
        if key in CTX.table:
            name = CTX.table[key].name
        else:
            name = f"{kind}#{len(CTX.gens)}"
    known = (kind, tuple(args)) in CTX.table
    g = CTX.gen(kind, tuple(args), name, integer=integer, iv=iv)
    if not known and kind in ("cos", "sin", "atan2", "sqrt", "acos", "asin", "atan", "exp", "log"):
        v = const_value(g.gid)
        if v is not None:
            e = Fraction(1, 10 ** 12) * max(1, abs(v))
            g.iv = g.iv.meet(Iv(v - e, False, v + e, False))
    return g


def const_value(gid):
    """value of a generator that depends on no parameter."""
    todo, seen = [gid], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        G = CTX.gens[x]
        if G.kind == "sym" or len(seen) > 30:
            return None
        for a in (G.args if isinstance(G.args, tuple) else (G.args,)):
            if isinstance(a, Num):
                todo.extend(a.n.gens())
                for f, _ in a.den:
                    todo.extend(f.gens())
    try:
        v = float(eval_gen(gid, {}, {}))
    except Exception:
        return None
    return Fraction(v) if v == v and abs(v) < 1e12 else None


def sqrt_poly_core(p):
    """sqrt of a polynomial with no square content: generator with s**2 = p."""
    if p.is_const():
        c = p.const()
        if c >= 0:
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return Num(pconst(Fraction(a, b)))
    g = fgen("sqrt", (Num(p),), iv=NONNEG)
    if g.square is None:
        g.square = p
    i = piv(p)
    if i.pos():
        g.iv = Iv(Fraction(0), True)
    return Num(pgen(g))


def split_pi(p):
    """split polynomial argument (radians) into list of single-monomial terms."""
    return sorted(p.d.items(), key=lambda t: mono_key(t[0]))


def _cs_const(c):
    """cos, sin of a constant radian value when it is a multiple of pi/6 or pi/4."""
    r = c / PI
    r = r - 2 * (r.numerator // (2 * r.denominator))       # into [0,2)
    q = r * 12
    if q.denominator != 1:
        return None
    k = int(q)                                              # multiples of 15 degrees
    half = Fraction(1, 2)
    if k % 6 == 0:
        t = {0: (1, 0), 6: (0, 1), 12: (-1, 0), 18: (0, -1)}[k]
        return Num(pconst(t[0])), Num(pconst(t[1]))
    if k % 3 == 0:
        s = mul(sqrt_poly_core(pconst(2)), num(half))
        sc = 1 if k in (3, 21) else -1
        ss = 1 if k in (3, 9) else -1
        return mul(s, num(sc)), mul(s, num(ss))
    if k % 2 == 0:
        s3 = mul(sqrt_poly_core(pconst(3)), num(half))
        h = num(half)
        t = {2: (s3, h), 4: (h, s3), 8: (neg(h), s3), 10: (neg(s3), h),
             14: (neg(s3), neg(h)), 16: (neg(h), neg(s3)), 20: (h, neg(s3)), 22: (s3, neg(h))}
        return t[k]
    return None


def _sqrt_pos(q):
    """square root of a non-negative value number, without case splits."""
    n, den = q.n, {}
    for f, e in q.den:
        if e % 2:
            n = pmul(n, f)
            e += 1
        if not piv(f).nonneg() and (e // 2) % 2:
            g = fgen("abs", (Num(f),), iv=NONNEG)
            g.square = pmul(f, f)
            f2 = pgen(g)
        else:
            f2 = f
        den[f2] = den.get(f2, 0) + e // 2
    r = sqrt_poly_core(n)
    for f, e in den.items():
        for _ in range(e):
            r = mul(r, inv(Num(f)))
    return r


def _inverse_trig(m, coef):
    """cos, sin of  k*g  with integer k and g an inverse trigonometric generator."""
    if len(m) != 1 or m[0][1] != 1 or coef.denominator != 1 or abs(coef) > 4:
        return None
    g = CTX.gens[m[0][0]]
    if g.kind == "atan2":
        y, x = g.args
        h = _sqrt_pos(add(mul(x, x), mul(y, y)))
        i = inv(h)
        c, s = mul(x, i), mul(y, i)
    elif g.kind == "acos":
        c = g.args[0]
        s = _sqrt_pos(sub(num(1), mul(c, c)))
    elif g.kind == "asin":
        s = g.args[0]
        c = _sqrt_pos(sub(num(1), mul(s, s)))
    elif g.kind == "atan":
        t = g.args[0]
        c = inv(_sqrt_pos(add(num(1), mul(t, t))))
        s = mul(t, c)
    else:
        return None
    if coef < 0:
        s = neg(s)
    C, S = c, s
    for _ in range(abs(int(coef)) - 1):
        C, S = sub(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    return C, S


UNIT = Iv(Fraction(-1), False, Fraction(1), False)


def cos_sin(a):
    """(cos a, sin a) as value numbers, angle-addition normalised.

    Returns None when the argument needs gating (atan2 arguments are handled by
    the interpreter before coming here).
    """
    if a.den:
        c = fgen("cos", (a,), iv=UNIT)
        s = fgen("sin", (a,), iv=UNIT)
        if s.square is None:
            s.square = padd(ONE, pneg(pmul(pgen(c), pgen(c))))
        return Num(pgen(c)), Num(pgen(s))
    C, S = num(1), num(0)
    for m, coef in split_pi(a.n):
        if not m:
            t = _cs_const(coef)
            if t is None:
                g = fgen("cos", (Num(pconst(coef)),), iv=UNIT)
                h = fgen("sin", (Num(pconst(coef)),), iv=UNIT)
                if h.square is None:
                    h.square = padd(ONE, pneg(pmul(pgen(g), pgen(g))))
                t = Num(pgen(g)), Num(pgen(h))
            c, s = t
        elif all(CTX.gens[g].integer for g, _ in m) and (coef / (2 * PI)).denominator == 1:
            continue                       # whole turns
        else:
            t = _inverse_trig(m, coef)
            if t is None:
                sg = 1 if coef > 0 else -1
                arg = Num(Poly({m: abs(coef)}))
                cg = fgen("cos", (arg,), iv=UNIT)
                sn = fgen("sin", (arg,), iv=UNIT)
                if sn.square is None:
                    sn.square = padd(ONE, pneg(pmul(pgen(cg), pgen(cg))))
                t = Num(pgen(cg)), mul(Num(pgen(sn)), num(sg))
            c, s = t
        C, S = sub(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    if not C.is_const() and not C.den:
        learn_from(C.n, UNIT, a.n.gens())
    if not S.is_const() and not S.den:
        learn_from(S.n, UNIT, a.n.gens())
    return C, S


# --------------------------------------------------------------------------
# numeric value of a value number at a rational point of the generators
# (used only to certify that an abstract cell is non-empty)
# --------------------------------------------------------------------------
class EvalError(Exception):
    pass


def eval_num(a, env, cache):
    v = eval_poly(a.n, env, cache)
    for f, e in a.den:
        d = eval_poly(f, env, cache)
        if d == 0:
            raise EvalError("zero denominator")
        v = v / d ** e
    return v


def eval_poly(p, env, cache):
    tot = 0
    for m, c in p.d.items():
        t = c
        for g, e in m:
            v = eval_gen(g, env, cache)
            t = _mulx(t, v ** e)
        tot = _addx(tot, t)
    return tot


def _mulx(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) * float(b)
    return a * b


def _addx(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) + float(b)
    return a + b


def eval_gen(gid, env, cache):
    if gid in cache:
        return cache[gid]
    g = CTX.gens[gid]
    if g.kind == "sym":
        v = env[gid]
    else:
        xs = [eval_num(x, env, cache) if isinstance(x, Num) else x for x in
              (g.args if isinstance(g.args, tuple) else (g.args,))]
        v = _apply(g.kind, xs)
    cache[gid] = v
    return v


def _apply(kind, xs):
    try:
        if kind == "sqrt":
            x = xs[0]
            if isinstance(x, Fraction):
                if x < 0:
                    raise EvalError
                a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if a * a == x.numerator and b * b == x.denominator:
                    return Fraction(a, b)
            return math.sqrt(x)
        if kind == "abs":
            return abs(xs[0])
        if kind in ("trunc", "floor", "ceil", "round") and isinstance(xs[0], float):
            y = xs[0] - 0.5 if kind == "round" else xs[0]
            if abs(y - round(y)) < 1e-7 * max(1.0, abs(y)):      # too close to a step to tell
                raise EvalError(kind)
        if kind == "trunc":
            return Fraction(math.trunc(xs[0]))
        if kind == "floor":
            return Fraction(math.floor(xs[0]))
        if kind == "ceil":
            return Fraction(math.ceil(xs[0]))
        if kind == "round":
            return Fraction(round(xs[0]))
        if kind == "inv":
            return 1 / xs[0]
        if kind == "hash":          # of numbers: what Python computes (a tuple hashes the hashes of its items)
            if not all(isinstance(x, (Fraction, int)) for x in xs):
                raise EvalError(kind)
            return Fraction(hash(xs[0]) if len(xs) == 1 else hash(tuple(int(x) for x in xs)))
        if kind == "pow":
            return float(xs[0]) ** float(xs[1])
        fn = {"cos": math.cos, "sin": math.sin, "tan": math.tan, "exp": math.exp,
              "log": math.log, "acos": math.acos, "asin": math.asin,
              "atan": math.atan, "atan2": math.atan2}.get(kind)
        if fn is None:
            raise EvalError(kind)
        return fn(*[float(x) for x in xs])
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        raise EvalError(kind)
