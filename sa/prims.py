"""Transfer functions of numeric primitives (math module and operators).

Each takes value numbers and yields a *gated* value number: the cases of a
primitive (sign cases of abs, atan2, sqrt of a square, ...) become gates, so
that no case of the real function is lost and none is invented.
"""
from __future__ import annotations
from fractions import Fraction
import math
from . import alg, gates
from .alg import Num, Iv

MAXTERMS = 900


def M():
    return gates.MGR


def guard(x):
    if len(x.n.d) > MAXTERMS:
        raise gates.TooBig("value number too large")
    return x


def leaf(x):
    return M().leaf(guard(x))


def sgn(a):
    return gates.sign_num(a)


def sel(a, neg, zero, pos):
    """choose a DD by the sign of a."""
    m = M()
    s = sgn(a)
    if isinstance(s, gates.Leaf):
        return {-1: neg, 0: zero, 1: pos}[s.v]
    isneg = m.map(lambda v: m.leaf(v < 0), s)
    ispos = m.map(lambda v: m.leaf(v > 0), s)
    return m.ite(ispos, pos, m.ite(isneg, neg, zero))


def absn(a):
    return sel(a, leaf(alg.neg(a)), leaf(a), leaf(a))


def mapn(f, *dds):
    return M().applyn(f, dds)


def mul_dd(a, b):
    return mapn(lambda x, y: leaf(alg.mul(x, y)), a, b)


# -- floor family ---------------------------------------------------------
def floor_num(q):
    """floor as a value number: integer parts are taken out, so the result does
    not depend on how the argument was associated."""
    if q.is_const():
        return alg.num(math.floor(q.const()))
    if q.den:
        g = alg.fgen("floor", (q,), integer=True)
        # 0 <= n - den * floor < den for a positive denominator
        den = alg.pconst(1)
        for f, e in q.den:
            for _ in range(e):
                den = alg.pmul(den, f)
        iv = alg.piv(den)
        if iv.neg():
            den, n = alg.pneg(den), alg.pneg(q.n)
        else:
            n = q.n
        if iv.pos() or iv.neg():
            d = alg.psub(n, alg.pmul(den, alg.pgen(g)))
            alg.learn(d, Iv(Fraction(0), False))
            alg.learn(alg.psub(d, den), Iv(None, False, Fraction(0), True))
        return Num(alg.pgen(g))
    whole, rest = {}, {}
    for mono, c in q.n.d.items():
        if mono and c.denominator == 1 and all(alg.CTX.gens[g].integer for g, _ in mono):
            whole[mono] = c
        elif not mono:
            k = math.floor(c)
            if k:
                whole[mono] = Fraction(k)
            if c - k:
                rest[mono] = c - k
        else:
            rest[mono] = c
    w = Num(alg.Poly(whole))
    if not rest:
        return w
    r = alg.Poly(rest)
    iv = alg.piv(r)
    if iv.lo is not None and iv.hi is not None:
        lo = math.floor(iv.lo)
        hi = math.floor(iv.hi)
        if iv.hi_o and iv.hi == hi:
            hi -= 1
        if lo == hi:
            return alg.add(w, alg.num(lo))
    g = alg.fgen("floor", (Num(r),), integer=True,
                 iv=Iv(None if iv.lo is None else Fraction(math.floor(iv.lo)), False,
                       None if iv.hi is None else Fraction(math.floor(iv.hi)), False))
    d = alg.padd_raw(r, alg.pgen(g), -1)
    alg.learn(d, Iv(Fraction(0), False, Fraction(1), True))
    # floor(x) + floor(-x) is -1 or 0
    tab = alg.CTX.__dict__.setdefault("floors", {})
    if r not in tab:
        tab[r] = g
        c = r.const()
        mir = alg.padd_raw(alg.pneg(r), alg.pconst(1 if c else 0))
        h = tab.get(mir)
        if h is not None and h is not g:
            k = Fraction(0 if c else -1)
            alg.learn(alg.padd_raw(alg.pgen(g), alg.pgen(h)), Iv(k, False, k + 1, False))
    return alg.add(w, Num(alg.pgen(g)))


def floor_(q):
    return leaf(floor_num(q))


def ceil_(q):
    return leaf(alg.neg(floor_num(alg.neg(q))))


def trunc_(q):
    f = leaf(floor_num(q))
    c = leaf(alg.neg(floor_num(alg.neg(q))))
    return sel(q, c, leaf(alg.num(0)), f)


def round_(q):
    """banker's rounding to an integer."""
    if q.is_const():
        return leaf(alg.num(round(q.const())))
    m = M()
    h = alg.add(q, alg.num(Fraction(1, 2)))
    f = floor_num(h)
    # tie exactly when h is an integer: keep it separate (gate on h - floor(h))
    d = alg.sub(h, f)
    even = alg.mul(alg.num(2), floor_num(alg.mul(h, alg.num(Fraction(1, 2)))))
    tie = m.ite(m.map(lambda v: m.leaf(v == 0), sgn(alg.sub(f, even))),
                leaf(f), leaf(alg.sub(f, alg.num(1))))
    return sel(d, leaf(f), tie, leaf(f))


def fmod_(a, b):
    """sign follows a; b non-zero (gated by the caller)."""
    # r = |b| * frac
    def one(bb):
        pos = alg.sub(a, alg.mul(bb, floor_num(alg.div(a, bb))))
        na = alg.neg(a)
        neg = alg.neg(alg.sub(na, alg.mul(bb, floor_num(alg.div(na, bb)))))
        _learn_mod(pos, bb)
        _learn_mod(alg.neg(neg), bb)
        return sel(a, leaf(neg), leaf(alg.num(0)), leaf(pos))
    if alg.is_zero(b):
        return leaf(alg.num(0))
    return mapn(lambda x: one(x), absn(b)) if not b.is_const() else one(alg.num(abs(b.const())))


def _learn_mod(r, b):
    if not r.den and b.is_const() and not r.n.is_const():
        k = b.const()
        if k > 0:
            alg.learn(r.n, Iv(Fraction(0), False, k, True))
        else:
            alg.learn(r.n, Iv(k, True, Fraction(0), False))


def mod_(a, b):
    if alg.is_zero(b):
        return leaf(alg.num(0))
    r = alg.sub(a, alg.mul(b, floor_num(alg.div(a, b))))
    _learn_mod(r, b)
    return leaf(r)


def floordiv_(a, b):
    if alg.is_zero(b):
        return leaf(alg.num(0))
    return leaf(floor_num(alg.div(a, b)))


# -- square roots -----------------------------------------------------------
def _sq_int(n):
    """n = s*s*r, r small square-free part (trial division, bounded)."""
    s, r = 1, n
    k = math.isqrt(n)
    if k * k == n:
        return k, 1
    d = 2
    while d * d <= r and d < 2000:
        while r % (d * d) == 0:
            r //= d * d
            s *= d
        d += 1
    k = math.isqrt(r)
    if k * k == r:
        return s * k, 1
    return s, r


def psqrt_exact(p):
    """polynomial q with q*q == p, or None."""
    if p.is_const():
        return None
    lm = alg.lead(p)
    c = p.d[lm]
    if c <= 0 or any(e % 2 for _, e in lm):
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    lt = tuple((g, e // 2) for g, e in lm)
    q = alg.Poly({lt: Fraction(a, b)})
    rem = alg.padd_raw(p, alg.pmul_raw(q, q), -1)
    for _ in range(60):
        if rem.is_zero():
            break
        m = alg.lead(rem)
        md, ld = dict(m), dict(lt)
        quo = {}
        for g, e in ld.items():
            if md.get(g, 0) < e:
                return None
        for g, e in md.items():
            x = e - ld.get(g, 0)
            if x:
                quo[g] = x
        qm = tuple(sorted(quo.items()))
        if alg.mono_key(qm) >= alg.mono_key(lt):
            return None
        t = alg.Poly({qm: rem.d[m] / (2 * Fraction(a, b))})
        two = alg.padd_raw(alg.pscale(q, Fraction(2)), t)
        rem = alg.padd_raw(rem, alg.pmul_raw(two, t), -1)
        q = alg.padd_raw(q, t)
    else:
        return None
    return q if rem.is_zero() else None


def sqrt_(q):
    """sqrt of a value number that is >= 0 on the live traces."""
    m = M()
    if alg.is_zero(q):
        return leaf(alg.num(0))
    n = q.n
    outer = leaf(alg.num(1))           # |.| factors pulled out
    for f, e in q.den:
        if e % 2:
            n = alg.pmul(n, f)
            e += 1
        a = absn(Num(f))
        ia = mapn(lambda x: leaf(alg.inv(x)), a)
        for _ in range(e // 2):
            outer = mul_dd(outer, ia)
    # rational content
    k, fs = alg.split_factors(n) if not n.is_const() else (n.const(), [])
    core = alg.ONE
    for f, e in fs:
        if e >= 2:
            a = absn(Num(f))
            for _ in range(e // 2):
                outer = mul_dd(outer, a)
        if e % 2:
            core = alg.pmul(core, f)
    if not core.is_const():
        # make the core primitive with positive content
        num_l, den_l = 0, 1
        for c in core.d.values():
            num_l = math.gcd(num_l, c.numerator)
            den_l = den_l * c.denominator // math.gcd(den_l, c.denominator)
        ct = Fraction(num_l, den_l)
        k *= ct
        core = alg.pscale(core, 1 / ct)
        if k < 0:
            core = alg.pneg(core)
            k = -k
        r = psqrt_exact(core)
        if r is not None:
            outer = mul_dd(outer, absn(Num(r)))
            core = alg.ONE
    else:
        k *= core.const()
        core = alg.ONE
    if k < 0:
        # negative constant: only on traces the caller has already gated away
        return leaf(alg.num(0))
    s, r = _sq_int(k.numerator * k.denominator)
    coef = Fraction(s, k.denominator)
    if core == alg.ONE:
        root = alg.sqrt_poly_core(alg.pconst(r)) if r != 1 else alg.num(1)
    else:
        root = alg.sqrt_poly_core(alg.pscale(core, Fraction(r)))
    return mul_dd(outer, leaf(alg.mul(alg.num(coef), root)))


def hypot_(*xs):
    t = alg.num(0)
    for x in xs:
        t = alg.add(t, alg.mul(x, x))
    return sqrt_(t)


# -- trigonometry -------------------------------------------------------------
HALF_PI = alg.PI / 2


def atan2_(y, x):
    """atan2 split by the sign of y: atan2(y,x) = -atan2(-y,x) for y < 0."""
    m = M()

    def upper(yy, xx):
        if xx.n.is_zero():
            return alg.num(alg.PI / 2)
        sx = sgn(xx)
        iv = Iv(Fraction(0), True, alg.PI, True)
        if isinstance(sx, gates.Leaf):
            iv = Iv(Fraction(0), True, alg.PI / 2, True) if sx.v > 0 else Iv(alg.PI / 2, True, alg.PI, True)
        yy, xx = _positive_scale(yy, xx)
        g = alg.fgen("atan2", (yy, xx), iv=iv)
        return Num(alg.pgen(g))
    d = _direction(y, x)
    if d is not None:
        return d
    c = _common_factor(y, x)
    if c is not None:
        f, y2, x2 = c
        return sel(f, atan2_(alg.neg(y2), alg.neg(x2)), leaf(alg.num(0)), atan2_(y2, x2))
    zero = sel(x, leaf(alg.num(alg.PI)), leaf(alg.num(0)), leaf(alg.num(0)))
    s = sgn(y)
    if isinstance(s, gates.Leaf):
        if s.v == 0:
            return zero
        if s.v > 0:
            return leaf(upper(y, x))
        return leaf(alg.neg(upper(alg.neg(y), x)))
    return sel(y, leaf(alg.neg(upper(alg.neg(y), x))), zero, leaf(upper(y, x)))


def _common_factor(y, x):
    """a polynomial factor of both arguments whose sign is not known: (factor, y / factor, x / factor)"""
    if y.den or x.den or y.n.is_zero() or x.n.is_zero():
        return None
    _, fy = alg.split_factors(y.n)
    dx = dict(alg.split_factors(x.n)[1])
    for f, e in fy:
        if min(e, dx.get(f, 0)) % 2 and not alg.piv(f).nonneg():
            qy, qx = alg.pdiv_exact(y.n, f), alg.pdiv_exact(x.n, f)
            if qy is not None and qx is not None:
                return Num(f), Num(qy), Num(qx)
    return None


def _direction(y, x):
    """atan2(k sin A, k cos A) with k > 0 and A within one turn: A, normalised."""
    if y.den != x.den or y.n.is_zero() or x.n.is_zero():
        if not (y.den or x.den) or y.n.is_zero() or x.n.is_zero():
            return None
    y2, x2 = _positive_scale(y, x)
    if y2.den or x2.den or len(y2.n.d) != 1 or len(x2.n.d) != 1:
        return None
    (my, cy), = y2.n.d.items()
    (mx, cx), = x2.n.d.items()
    if abs(cy) != abs(cx):
        return None

    def split(mono, kind):
        rest, gen = [], None
        for g, e in mono:
            G = alg.CTX.gens[g]
            if G.kind == kind and e == 1 and gen is None:
                gen = G
            else:
                rest.append((g, e))
        return gen, rest
    gs, ry = split(my, "sin")
    gc, rx = split(mx, "cos")
    if gs is None or gc is None or ry != rx or gs.args != gc.args:
        return None
    k = alg.Poly({tuple(ry): Fraction(1)})
    if not alg.piv(k).pos():
        return None
    a = gs.args[0]
    iv = alg.num_iv(a)
    if iv.lo is None or iv.hi is None or iv.lo < -alg.PI or iv.hi > alg.PI:
        return None
    if not _same_side(y, y2) or not _same_side(x, x2):
        return None
    b = a if (cy > 0) == (cx > 0) else alg.neg(a)
    pi = alg.num(alg.PI)
    if cx > 0:
        return sel(alg.add(b, pi), leaf(pi), leaf(pi), leaf(b))
    return sel(b, leaf(alg.add(b, pi)), leaf(alg.add(b, pi)), leaf(alg.sub(b, pi)))


def _same_side(q, q2):
    """q = k*q2 for a strictly positive k."""
    r = alg.div(q, q2)
    k, fs = (r.n.const(), []) if r.n.is_const() else alg.split_factors(r.n)
    if k <= 0:
        return False
    for f, e in list(fs) + list(r.den):
        iv = alg.piv(f)
        if iv.pos() or (iv.neg() and e % 2 == 0):
            continue
        if e % 2 == 0 and (f, e) in r.den:
            continue                       # a denominator does not vanish
        return False
    return True


def _positive_scale(y, x):
    """atan2 is invariant under positive scaling: normalise it away."""
    den = dict(y.den)
    for f, e in x.den:
        den[f] = max(den.get(f, 0), e)
    if den:
        # multiply by the (positive) even completion of the denominators
        k = alg.num(1)
        for f, e in den.items():
            iv = alg.piv(f)
            if iv.nonneg():
                ee = e
            else:
                ee = e + (e % 2)
            for _ in range(ee):
                k = alg.mul(k, Num(f))
        y, x = alg.mul(y, k), alg.mul(x, k)
    # common positive polynomial factors
    if not y.den and not x.den and not y.n.is_zero() and not x.n.is_zero():
        ky, fy = alg.split_factors(y.n)
        kx, fx = alg.split_factors(x.n)
        dx = dict(fx)
        for f, e in fy:
            c = min(e, dx.get(f, 0))
            if not alg.piv(f).nonneg():
                c -= c % 2
            for _ in range(c):
                qy, qx = alg.pdiv_exact(y.n, f), alg.pdiv_exact(x.n, f)
                if qy is None or qx is None:
                    break
                y, x = Num(qy), Num(qx)
    if not y.n.is_zero():
        c = abs(y.n.d[alg.lead(y.n)])
        y, x = alg.mul(y, alg.num(1 / c)), alg.mul(x, alg.num(1 / c))
    return y, x


def cos_(a):
    return leaf(alg.cos_sin(a)[0])


def sin_(a):
    return leaf(alg.cos_sin(a)[1])


def tan_(a):
    c, s = alg.cos_sin(a)
    if alg.is_zero(c):
        return leaf(Num(alg.pgen(alg.fgen("tan", (a,)))))
    return leaf(alg.div(s, c))


def acos_(u):
    if u.is_const() and u.const() in (1, 0, -1, Fraction(1, 2), Fraction(-1, 2)):
        return leaf(alg.num({1: 0, 0: HALF_PI, -1: alg.PI, Fraction(1, 2): alg.PI / 3,
                             Fraction(-1, 2): 2 * alg.PI / 3}[u.const()]))
    g = alg.fgen("acos", (u,), iv=Iv(Fraction(0), False, alg.PI, False))
    return leaf(Num(alg.pgen(g)))


def asin_(u):
    if u.is_const() and u.const() in (1, 0, -1):
        return leaf(alg.num(u.const() * HALF_PI))
    k = alg.frac(1)
    if not u.n.is_zero() and u.n.d[alg.lead(u.n)] < 0:
        k, u = alg.frac(-1), alg.neg(u)
    g = alg.fgen("asin", (u,), iv=Iv(-HALF_PI, False, HALF_PI, False))
    return leaf(alg.mul(alg.num(k), Num(alg.pgen(g))))


def atan_(u):
    if u.is_const() and u.const() in (1, 0, -1):
        return leaf(alg.num(u.const() * HALF_PI / 2))
    k = alg.frac(1)
    if not u.n.is_zero() and u.n.d[alg.lead(u.n)] < 0:
        k, u = alg.frac(-1), alg.neg(u)
    g = alg.fgen("atan", (u,), iv=Iv(-HALF_PI, True, HALF_PI, True))
    return leaf(alg.mul(alg.num(k), Num(alg.pgen(g))))


# -- exponentials ---------------------------------------------------------------
def pow_(a, b):
    """a**b; the caller has gated 0**negative and negative**fraction."""
    if b.is_const():
        e = b.const()
        if e.denominator == 1 and abs(e) <= 12:
            e = int(e)
            if e < 0:
                if alg.is_zero(a):
                    return leaf(alg.num(0))
                a, e = alg.inv(a), -e
            r = alg.num(1)
            for _ in range(e):
                r = alg.mul(r, a)
            return leaf(r)
        if e == Fraction(1, 2):
            return sqrt_(a)
    if a.is_const() and a.const() == 1:
        return leaf(alg.num(1))
    if b.den or alg.is_zero(a):
        g = alg.fgen("pow", (a, b), iv=Iv(Fraction(0), alg.num_iv(a).pos()) if alg.num_iv(a).nonneg() else alg.TOP)
        return leaf(Num(alg.pgen(g)))
    # a**(k + m1 + m2 ..) = a**k * a**m1 * ...
    res = alg.num(1)
    for mono, c in sorted(b.n.d.items(), key=lambda t: alg.mono_key(t[0])):
        if not mono:
            k = math.floor(c)
            base = a if k >= 0 else alg.inv(a)
            if abs(k) > 12:
                raise gates.TooBig("exponent")
            for _ in range(abs(k)):
                res = alg.mul(res, base)
            c = c - k
            if not c:
                continue
        arg = Num(alg.Poly({mono: abs(c)}))
        pos = alg.num_iv(a)
        g = alg.fgen("pow", (a, arg), iv=Iv(Fraction(0), True) if pos.pos() else
                     (alg.NONNEG if pos.nonneg() else alg.TOP))
        t = Num(alg.pgen(g))
        res = alg.mul(res, t) if c > 0 else alg.mul(res, alg.inv(t))
    return leaf(res)


def exp_(a):
    if alg.is_zero(a):
        return leaf(alg.num(1))
    gs = _as_gen(a)
    if gs is not None and gs.kind == "log":
        return leaf(gs.args[0])
    return leaf(Num(alg.pgen(alg.fgen("exp", (a,), iv=Iv(Fraction(0), True)))))


def _as_gen(a):
    if a.den or len(a.n.d) != 1:
        return None
    (mono, c), = a.n.d.items()
    if c == 1 and len(mono) == 1 and mono[0][1] == 1:
        return alg.CTX.gens[mono[0][0]]
    return None


def log_(a):
    """log of a positive value number (gated by the caller)."""
    if a.is_const() and a.const() == 1:
        return leaf(alg.num(0))
    # monomial in pow/exp generators and one leftover
    if not a.den and len(a.n.d) == 1:
        (mono, c), = a.n.d.items()
        tot = alg.num(0)
        rest = []
        for g, e in mono:
            G = alg.CTX.gens[g]
            if G.kind == "pow":
                tot = alg.add(tot, alg.mul(alg.num(e), alg.mul(G.args[1], logn(G.args[0]))))
            elif G.kind == "exp":
                tot = alg.add(tot, alg.mul(alg.num(e), G.args[0]))
            else:
                rest.append((g, e))
        if len(rest) < len(mono):
            r = Num(alg.Poly({tuple(rest): c}))
            if not (r.is_const() and r.const() == 1):
                tot = alg.add(tot, logn(r))
            return leaf(tot)
    return leaf(logn(a))


def logn(a):
    if a.is_const() and a.const() == 1:
        return alg.num(0)
    gs = _as_gen(a)
    if gs is not None and gs.kind == "exp":
        return gs.args[0]
    if a.is_const() and 0 < a.const() < 1:
        return alg.neg(logn(alg.num(1 / a.const())))
    iv = alg.TOP
    if a.is_const():
        iv = Iv(Fraction(0), True)
    return Num(alg.pgen(alg.fgen("log", (a,), iv=iv)))
