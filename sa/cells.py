"""Inhabitance of abstract cells.

A refuted obligation is a gate that is not identically false.  Before it is
reported, a cell of that gate (a conjunction of sign conditions on value
numbers) must be shown inhabited; a cell that can be shown empty (interval or
polyhedral reasoning on its constraints) is discharged instead.  What is
evaluated here are the *polynomial constraints of the cell*, never the program.
"""
from __future__ import annotations
from fractions import Fraction
import math
import random
from . import alg, gates
from .alg import Iv, Num, Poly

F0 = Fraction(0)


# ------------------------------------------------------------------ emptiness
def sym_closure(gids):
    out, todo, seen = set(), list(gids), set()
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        G = alg.CTX.gens[g]
        if G.kind == "sym":
            out.add(g)
            continue
        args = G.args if isinstance(G.args, tuple) else (G.args,)
        for a in args:
            if isinstance(a, Num):
                todo.extend(a.n.gens())
                for f, _ in a.den:
                    todo.extend(f.gens())
    return out


def nested_syms(gid):
    G = alg.CTX.gens[gid]
    if G.kind == "sym":
        return set()
    return sym_closure([gid])


def subst_poly(p, g, q):
    """replace generator g by polynomial q at the top level of p."""
    acc = {}
    out = alg.ZERO
    for m, c in p.d.items():
        md = dict(m)
        e = md.pop(g, 0)
        t = Poly({tuple(sorted(md.items())): c})
        for _ in range(e):
            t = alg.pmul_raw(t, q)
        out = alg.padd_raw(out, t)
    return alg.reduce_poly(out)


def int_tight(p, iv):
    """tighten an interval of an integer-valued polynomial."""
    for m, c in p.d.items():
        if c.denominator != 1 or not all(alg.CTX.gens[g].integer for g, _ in m):
            return iv
    lo, hi = iv.lo, iv.hi
    if lo is not None:
        lo = Fraction(math.floor(lo) + 1) if (iv.lo_o and lo.denominator == 1) else Fraction(math.ceil(lo))
    if hi is not None:
        hi = Fraction(math.ceil(hi) - 1) if (iv.hi_o and hi.denominator == 1) else Fraction(math.floor(hi))
    return Iv(lo, False, hi, False)


def cell_constraints(cell):
    """-> list of (poly, Iv, nonzero?)"""
    cons = []
    for var, reg in cell:
        if var.kind == "p":
            if len(var.base.d) == 1:
                reg = reg.meet(alg.piv(var.base))
            cons.append((var.base, int_tight(var.base, reg), False))
        elif var.kind == "z":
            cons.append((var.base, Iv(F0, False, F0, False), False) if reg else (var.base, None, True))
    return cons


def local_ivs(cons):
    """interval of each generator bounded directly by a constraint."""
    local = {}
    for p, iv, nz in cons:
        if not nz and len(p.d) <= 2:
            ms = [m for m in p.d if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                g, c = ms[0][0][0], p.d[ms[0]]
                r = iv.add(alg.point_iv(-p.const())).scale(1 / c)
                local[g] = local[g].meet(r) if g in local else r
    return local


def root_values(cons, g, rep):
    """square roots over generator g that become plain polynomials once g = rep:
    {root generator: polynomial}, or None when some generator over g does not."""
    from . import prims
    local = local_ivs(cons)
    out = {}
    for p, _, _ in cons:
        for s in p.gens():
            if s in out or g not in nested_syms(s):
                continue
            S = alg.CTX.gens[s]
            if S.kind != "sqrt" or S.square is None or g in sym_nested_in(S.square):
                return None
            core = subst_poly(S.square, g, rep)
            if core.is_const():
                c = core.const()
                if c < 0:
                    return None
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a != c.numerator or b * b != c.denominator:
                    return None
                out[s] = alg.pconst(Fraction(a, b))
                continue
            r = prims.psqrt_exact(core)
            if r is None:
                return None
            iv = alg.piv(r, local)
            if iv.lo is not None and iv.lo >= 0:
                out[s] = r
            elif iv.hi is not None and iv.hi <= 0:
                out[s] = alg.pneg(r)
            else:
                return None
    return out


def root_zero(p, eqs):
    """p is a multiple of a square root whose argument is zero by the equations."""
    if len(p.d) != 1:
        return False
    for g, _ in next(iter(p.d)):
        S = alg.CTX.gens[g]
        if S.kind == "sqrt" and S.square is not None and ideal_zero(S.square, eqs):
            return True
    return False


def ideal_zero(p, eqs, limit=400):
    """p reduces to zero by the equations of the cell (leading-term rewriting)."""
    for e in eqs:
        if alg.pdiv_exact(p, e) is not None:
            return True
    lead = [(dict(alg.lead(e)), alg.lead(e), e) for e in eqs]
    r = p
    for _ in range(limit):
        if r.is_zero():
            return True
        hit = False
        for m in sorted(r.d, key=alg.mono_key, reverse=True):
            md = dict(m)
            for ld, lm, e in lead:
                if all(md.get(g, 0) >= k for g, k in ld.items()):
                    quo = {g: md[g] - ld.get(g, 0) for g in md if md[g] != ld.get(g, 0)}
                    t = Poly({tuple(sorted(quo.items())): r.d[m] / e.d[lm]})
                    r = alg.reduce_poly(alg.padd_raw(r, alg.pmul_raw(t, e), -1))
                    hit = True
                    break
            if hit:
                break
        if not hit or len(r.d) > 400:
            return False
    return False


def cell_empty(cell):
    cons = cell_constraints(cell)
    used = set()
    for p, _, _ in cons:
        used |= p.gens()
    nested = set()
    for g in used:
        nested |= nested_syms(g)
    # linear equalities -> substitution
    for _ in range(12):
        pick = None
        roots = {}
        for i, (p, iv, nz) in enumerate(cons):
            if nz or iv is None or iv.lo is None or iv.lo != iv.hi:
                continue
            q = alg.padd_raw(p, alg.pconst(-iv.lo))
            if q.is_zero():
                continue
            for m, c in q.d.items():
                if len(m) == 1 and m[0][1] == 1:
                    g = m[0][0]
                    if any(g in dict(mm) for mm in q.d if mm != m):
                        continue
                    G = alg.CTX.gens[g]
                    if G.kind != "sym":
                        continue
                    rep = alg.pscale(alg.padd_raw(q, Poly({m: -c})), Fraction(-1) / c)
                    if g in nested:
                        roots = root_values(cons, g, rep)
                        if roots is None:
                            continue
                    else:
                        roots = {}
                    pick = (i, g, rep)
                    break
            if pick:
                break
        if not pick:
            break
        i, g, rep = pick
        giv = alg.CTX.gens[g].iv
        new = []
        for j, (p, iv, nz) in enumerate(cons):
            if j == i:
                continue
            for s, r in roots.items():
                if s in p.gens():
                    p = subst_poly(p, s, r)
            new.append((subst_poly(p, g, rep), iv, nz))
        if not giv.trivial():
            new.append((rep, giv, False))
        cons = new
        if roots:
            nested = set()
            for p, _, _ in cons:
                nested |= sym_nested_in(p)
    cons = refine(cons)
    if cons is None:
        return True
    lin = []
    local = local_ivs(cons)
    for g, r in local.items():
        if r.meet(alg.giv(g)).empty():
            return True
    eqs = [alg.padd_raw(p, alg.pconst(-iv.lo)) for p, iv, nz in cons
           if not nz and iv.lo is not None and iv.lo == iv.hi]
    eqs = [e for e in eqs if not e.is_const()]
    for p, iv, nz in cons:
        if nz:
            if p.is_zero() or (eqs and (ideal_zero(p, eqs) or root_zero(p, eqs))):
                return True
            continue
        if alg.piv(p, local).meet(iv).empty():
            return True
        if p.is_const():
            if Iv(p.const(), False, p.const(), False).meet(iv).empty():
                return True
            continue
        lin.append((p, iv))
    return fm_empty(lin, local)


def gen_iv(g, local):
    r = alg.giv(g)
    return r.meet(local[g]) if g in local else r


def quad_range(p, local):
    """exact range of a univariate polynomial of degree 2 over the interval of its generator."""
    g = None
    co = [F0, F0, F0]
    for m, c in p.d.items():
        if not m:
            co[0] = c
            continue
        if len(m) != 1 or m[0][1] > 2 or (g is not None and m[0][0] != g):
            return None
        g = m[0][0]
        co[m[0][1]] = c
    if g is None or co[2] == 0 or co[1] == 0:
        return None
    iv = gen_iv(g, local)
    c0, c1, c2 = co

    def val(x):
        return c2 * x * x + c1 * x + c0
    v = -c1 / (2 * c2)
    inside = not Iv(v, False, v, False).meet(iv).empty()
    pts = []
    for x, o in ((iv.lo, iv.lo_o), (iv.hi, iv.hi_o)):
        pts.append(None if x is None else (val(x), o))
    if inside:
        pts.append((val(v), False))
    fin = [t for t in pts if t is not None]
    up = None in pts and c2 > 0
    dn = None in pts and c2 < 0
    lo = hi = None
    lo_o = hi_o = False
    if fin:
        if not dn:
            lo = min(t[0] for t in fin)
            lo_o = all(o for t, o in fin if t == lo)
        if not up:
            hi = max(t[0] for t in fin)
            hi_o = all(o for t, o in fin if t == hi)
    return Iv(lo, lo_o, hi, hi_o)


def mono_iv(m, local, table):
    iv = alg.piv(Poly({m: Fraction(1)}), local)
    t = table.get(Poly({m: Fraction(1)}))
    return iv.meet(t) if t is not None else iv


def content(p):
    """largest monomial dividing every term."""
    it = iter(p.d)
    c = dict(next(it))
    for m in it:
        d = dict(m)
        c = {g: min(e, d.get(g, 0)) for g, e in c.items() if d.get(g, 0)}
        if not c:
            return ()
    return tuple(sorted(c.items()))


def prange(p, local, table):
    """interval of p from the constraints of a cell."""
    r = alg.piv(p, local)
    t = table.get(p)
    if t is not None:
        r = r.meet(t)
    q = quad_range(p, local)
    if q is not None:
        r = r.meet(q)
    m = content(p)
    if m and len(p.d) > 1:
        q = divide_mono(p, m)
        a = prange(q, local, table)
        if not a.trivial():
            r = r.meet(mono_iv(m, local, table).mul(a))
    elif len(p.d) > 3:
        f = separate(p)
        if f is not None:
            r = r.meet(prange(f[0], local, table).mul(prange(f[1], local, table)))
        else:
            r = r.meet(square_iv(p))
    elif len(p.d) == 3:
        r = r.meet(square_iv(p))
    return r


def square_iv(p):
    """[0, inf) (or its negative) for a polynomial that is a square (or minus one)."""
    from . import prims
    if all(e % 2 == 0 for _, e in alg.lead(p)):
        if p.d[alg.lead(p)] < 0:
            if prims.psqrt_exact(alg.pneg(p)) is not None:
                return Iv(None, False, F0, False)
        elif prims.psqrt_exact(p) is not None:
            return Iv(F0, False)
    return Iv()


_sep = {}


def separate(p):
    """p as the product of a polynomial in one generator and one in the others, or None."""
    if p in _sep:
        return _sep[p]
    out = None
    for g in sorted(p.gens()):
        co = {}
        for m, c in p.d.items():
            d = dict(m)
            e = d.pop(g, 0)
            co.setdefault(e, {})[tuple(sorted(d.items()))] = c
        if len(co) < 2 or len({len(x) for x in co.values()}) != 1:
            continue
        top = co[max(co)]
        if len(top) < 2:
            continue
        m0 = max(top)
        q = {}
        for e, x in co.items():
            k = x.get(m0)
            if k is None:
                break
            k = k / top[m0]
            if any(x.get(m) != k * c for m, c in top.items()):
                break
            q[((g, e),) if e else ()] = k
        else:
            out = (Poly(top), Poly(q))
            break
    _sep[p] = out
    return out


def divide_mono(p, m):
    md = dict(m)
    out = {}
    for k, c in p.d.items():
        d = dict(k)
        for g, e in md.items():
            d[g] -= e
        out[tuple(sorted((g, e) for g, e in d.items() if e))] = c
    return Poly(out)


def refine(cons):
    """constraints on the factors of constrained products; None when one is contradictory."""
    cons = list(cons)
    known = {}
    for p, iv, nz in cons:
        if not nz:
            known[p] = known[p].meet(iv) if p in known else iv
    for _ in range(3):
        local = local_ivs(cons)
        new = []

        def add(q, iv):
            if q.is_const():
                if Iv(q.const(), False, q.const(), False).meet(iv).empty():
                    raise _Empty
                return
            old = known.get(q)
            if old is not None:
                m = old.meet(iv)
                if m.empty():
                    raise _Empty
                if (m.lo, m.lo_o, m.hi, m.hi_o) == (old.lo, old.lo_o, old.hi, old.hi_o):
                    return
                iv = m
            neg = known.get(alg.pneg(q))
            if neg is not None and neg.scale(Fraction(-1)).meet(iv).empty():
                raise _Empty
            known[q] = iv
            new.append((q, iv, False))
        try:
            for p, iv, nz in cons[:40]:
                if nz or p.is_const() or len(p.d) > 24:
                    continue
                if prange(p, local, known).empty():
                    return None
                sp = sign_of_iv(iv)
                cands = []
                for g, e in content(p):
                    cands.append((Poly({((g, 1),): Fraction(1)}), gen_iv(g, local)))
                for q, qi in list(known.items())[:40]:
                    if q is not p and not q.is_const() and len(q.d) <= len(p.d) and q.gens() <= p.gens() and \
                            len(q.d) > 1:
                        cands.append((q, qi))
                for q, qi in cands:
                    if q == p:
                        continue
                    k = alg.pdiv_exact(p, q)
                    if k is None or k.is_const():
                        continue
                    qr = qi.meet(alg.piv(q, local))
                    kr = prange(k, local, known)
                    if qr.mul(kr).meet(iv).empty():
                        return None
                    sq = sign_of_iv(qr)
                    sk = sign_of_iv(kr)
                    for (a, sa), (b, sb) in (((q, sq), (k, sk)), ((k, sk), (q, sq))):
                        if sa is None or sp is None:
                            continue
                        # p = a * b, sign of a known
                        s = (sa[0] * sp[0])
                        if sp[0] == 0:
                            if sa[1]:
                                add(b, Iv(F0, False, F0, False))
                        elif sp[1]:
                            add(b, Iv(F0, True) if s > 0 else Iv(None, False, F0, True))
                            add(a, Iv(F0, True) if sa[0] > 0 else Iv(None, False, F0, True))
                        elif sa[1]:
                            add(b, Iv(F0, False) if s > 0 else Iv(None, False, F0, False))
        except _Empty:
            return None
        if not new:
            break
        cons = cons + new
    return cons


class _Empty(Exception):
    pass


def sign_of_iv(iv):
    """(sign, strict) or None."""
    if iv is None:
        return None
    if iv.lo is not None and iv.lo == iv.hi == 0:
        return (0, False)
    if iv.pos():
        return (1, True)
    if iv.neg():
        return (-1, True)
    if iv.nonneg():
        return (1, False)
    if iv.nonpos():
        return (-1, False)
    return None


def rows_of(lin, local):
    """linear inequalities over monomials: (coefficients, constant, strict) >= 0."""
    rows, monos = [], set()

    def put(p, iv):
        d = {m: c for m, c in p.d.items() if m}
        c0 = p.const()
        if iv.lo is not None:
            rows.append((dict(d), c0 - iv.lo, iv.lo_o))
        if iv.hi is not None:
            rows.append(({m: -c for m, c in d.items()}, iv.hi - c0, iv.hi_o))
    cons = []
    for p, iv in lin:
        iv2 = iv.meet(alg.piv(p, local))
        cons.append((p, iv2))
        monos |= {m for m in p.d if m}
        put(p, iv)
    # squares of tightly bounded constraints
    for p, iv in cons:
        if len(p.d) <= 2 and iv.lo is not None and iv.hi is not None and max(abs(iv.lo), abs(iv.hi)) <= 1:
            sq = alg.reduce_poly(alg.pmul_raw(p, p))
            b = max(iv.lo * iv.lo, iv.hi * iv.hi)
            if len(sq.d) <= 4:
                put(sq, Iv(F0, False, b, False))
                monos |= {m for m in sq.d if m}
    for m in list(monos):
        iv = alg.piv(Poly({m: Fraction(1)}), local)
        if iv.lo is not None:
            rows.append(({m: Fraction(1)}, -iv.lo, iv.lo_o))
        if iv.hi is not None:
            rows.append(({m: Fraction(-1)}, iv.hi, iv.hi_o))
    # facts about bases made of these monomials only
    for b, iv in alg.CTX.facts.items():
        if len(b.d) > 1 and set(b.d) <= monos and len(rows) < 120:
            put(b, iv)
    return rows, monos, cons


def product_rows(rows, monos, cons):
    """products of constraints and squares of differences that stay inside the monomials."""
    out = []

    def put(p, strict):
        d = {m: c for m, c in p.d.items() if m}
        if set(d) <= monos:
            out.append((d, p.const(), strict))
    # (a - b)^2 >= 0, (a + b)^2 >= 0
    for m in list(monos):
        if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
            a, b = ((m[0][0], 2),), ((m[1][0], 2),)
            if a in monos and b in monos:
                for sg in (2, -2):
                    out.append(({a: Fraction(1), b: Fraction(1), m: Fraction(sg)}, F0, False))
    # constraints as  q >= 0 (strict)
    qs = []
    for p, iv in cons:
        if iv.lo is not None:
            qs.append((alg.padd_raw(p, alg.pconst(-iv.lo)), iv.lo_o))
        if iv.hi is not None:
            qs.append((alg.padd_raw(alg.pconst(iv.hi), p, -1), iv.hi_o))
    qs = [q for q in qs if len(q[0].d) <= 12][:24]
    for i in range(len(qs)):
        for j in range(i, len(qs)):
            if len(out) > 160:
                break
            p = alg.reduce_poly(alg.pmul_raw(qs[i][0], qs[j][0]))
            put(p, qs[i][1] and qs[j][1])
    return out


def fm_empty(lin, local, cap=260):
    """is the conjunction of linear constraints over monomials contradictory?
    Fourier-Motzkin first, a linear-programming certificate with products next."""
    rows, monos, cons = rows_of(lin, local)
    if _fm(rows, cap):
        return True
    extra = product_rows(rows, monos, cons)
    allrows = rows + extra
    if len(allrows) > 260 or len(monos) > 90:
        allrows = rows + extra[:100]
        if len(allrows) > 260 or len(monos) > 90:
            return False
    if farkas(allrows):
        return True
    # wider products: bounds of the generators included, new monomials allowed
    qs = []
    for p, iv in cons:
        if len(p.d) > 9:
            continue
        if iv.lo is not None:
            qs.append((alg.padd_raw(p, alg.pconst(-iv.lo)), iv.lo_o))
        if iv.hi is not None:
            qs.append((alg.padd_raw(alg.pconst(iv.hi), p, -1), iv.hi_o))
    gs = set()
    for p, _ in cons:
        gs |= p.gens()
    for g in sorted(gs):
        iv = gen_iv(g, local)
        x = Poly({((g, 1),): Fraction(1)})
        if iv.lo is not None:
            qs.append((alg.padd_raw(x, alg.pconst(-iv.lo)), iv.lo_o))
        if iv.hi is not None:
            qs.append((alg.padd_raw(alg.pconst(iv.hi), x, -1), iv.hi_o))
    uniq = []
    for q in qs:
        if all(q[0] != u[0] for u in uniq):
            uniq.append(q)
    qs = uniq[:14]
    wide = list(allrows[:140])
    for q, st in qs:
        wide.append(({m: c for m, c in q.d.items() if m}, q.const(), st))
    for i in range(len(qs)):
        for j in range(i, len(qs)):
            p = alg.reduce_poly(alg.pmul_raw(qs[i][0], qs[j][0]))
            if len(p.d) <= 24:
                wide.append(({m: c for m, c in p.d.items() if m}, p.const(), qs[i][1] and qs[j][1]))
    return farkas(wide)


def farkas(rows):
    """a non-negative combination of the rows that reads 0 >= positive (or 0 > 0):
    exact simplex on the multipliers, lexicographic cost (constant, -strict)."""
    monos = sorted({m for d, _, _ in rows for m in d})
    idx = {m: i for i, m in enumerate(monos)}
    nr, nc = len(monos) + 1, len(rows)
    # presolve: a monomial with one sign only forces its multipliers to zero
    alive = set(range(nc))
    while True:
        pos, neg = {}, {}
        for k in alive:
            for m, c in rows[k][0].items():
                (pos if c > 0 else neg).setdefault(m, []).append(k)
        dead = set()
        for m in pos:
            if m not in neg:
                dead.update(pos[m])
        for m in neg:
            if m not in pos:
                dead.update(neg[m])
        if not dead:
            break
        alive -= dead
        if not alive:
            return False
    cols = sorted(alive)
    monos = sorted({m for k in cols for m in rows[k][0]})
    idx = {m: i for i, m in enumerate(monos)}
    nr, nc = len(monos) + 1, len(cols)
    if nr * nc > 12000:
        return False
    # tableau: each row a dict col -> Fraction, rhs last
    T = [[F0] * (nc + 1) for _ in range(nr)]
    for j, k in enumerate(cols):
        for m, c in rows[k][0].items():
            T[idx[m]][j] = c
        T[nr - 1][j] = Fraction(1)
    T[nr - 1][nc] = Fraction(1)
    basis = [-1] * nr                       # -1: artificial
    # phase 1: minimise the artificials;  cost row = -sum of artificial rows
    cost = [-sum(T[i][j] for i in range(nr)) for j in range(nc + 1)]
    c2 = [rows[k][1] for k in cols] + [F0]
    c3 = [Fraction(-1) if rows[k][2] else F0 for k in cols] + [F0]

    def pivot(r, j):
        pr = T[r]
        x = pr[j]
        if x != 1:
            pr[:] = [v / x if v else v for v in pr]
        nzs = [t for t in range(nc + 1) if pr[t]]
        for row in T + [cost, c2, c3]:
            if row is pr:
                continue
            f = row[j]
            if f:
                for t in nzs:
                    row[t] -= f * pr[t]
        basis[r] = j

    def ratio(j):
        best, br = None, None
        for i in range(nr):
            if T[i][j] > 0:
                q = T[i][nc] / T[i][j]
                if best is None or q < best or (q == best and basis[i] < basis[br]):
                    best, br = q, i
        return br
    for it in range(400):
        j = next((t for t in range(nc) if cost[t] < 0), None)
        if j is None:
            break
        r = ratio(j)
        if r is None:
            break
        pivot(r, j)
    else:
        return False
    if cost[nc] != 0:
        return False                        # no combination at all
    for i in range(nr):                     # drive artificials out
        if basis[i] == -1:
            j = next((t for t in range(nc) if T[i][t]), None)
            if j is not None:
                pivot(i, j)
    for it in range(400):
        if -c2[nc] < 0 or (c2[nc] == 0 and -c3[nc] < 0):
            return True                     # value of the objective so far
        j = next((t for t in range(nc) if c2[t] < 0 or (c2[t] == 0 and c3[t] < 0)), None)
        if j is None:
            return False
        r = ratio(j)
        if r is None:
            return False
        pivot(r, j)
    return False


def _fm(rows, cap):
    while True:
        # constant rows
        nxt = []
        for d, c, strict in rows:
            if not d:
                if c < 0 or (c == 0 and strict):
                    return True
            else:
                nxt.append((d, c, strict))
        rows = nxt
        if not rows:
            return False
        count = {}
        for d, c, s in rows:
            for m, k in d.items():
                a = count.setdefault(m, [0, 0])
                a[0 if k > 0 else 1] += 1
        m = min(count, key=lambda x: count[x][0] * count[x][1])
        P = [r for r in rows if r[0].get(m, 0) > 0]
        N = [r for r in rows if r[0].get(m, 0) < 0]
        R = [r for r in rows if m not in r[0]]
        seen = set()
        for a in P:
            for b in N:
                ka, kb = a[0][m], -b[0][m]
                d = {}
                for x, k in a[0].items():
                    if x != m:
                        d[x] = k / ka
                for x, k in b[0].items():
                    if x != m:
                        v = d.get(x, 0) + k / kb
                        if v:
                            d[x] = v
                        else:
                            d.pop(x, None)
                row = (d, a[1] / ka + b[1] / kb, a[2] or b[2])
                key = (frozenset(d.items()), row[1], row[2])
                if key not in seen:
                    seen.add(key)
                    R.append(row)
        if len(R) > cap:
            return False
        rows = R


# ------------------------------------------------------------------- witness
TOL = 1e-6


class Point:
    def __init__(self, env):
        self.env = env
        self.cache = {}

    def val(self, p):
        return alg.eval_poly(p, self.env, self.cache)


def scale_of(p, pt):
    s = 1.0
    for m, c in p.d.items():
        t = abs(float(c))
        for g, e in m:
            t *= abs(float(alg.eval_gen(g, pt.env, pt.cache))) ** e
        s += t
    return s


def eval_dd(d, pt, bools):
    """True/False/None (None: too close to a gate to be certain)."""
    while isinstance(d, gates.Node):
        v = d.var
        if v.kind == "p":
            x = pt.val(v.base)
            r = 0
            exact = isinstance(x, Fraction) or isinstance(x, int)
            sc = None
            idx = None
            for i, c in enumerate(d.breaks):
                if exact and x == c:
                    if float_poly(v.base, pt) != float(c):
                        return None
                    idx = 2 * i + 1
                    break
                if sc is None:
                    sc = 1e-9 * scale_of(v.base, pt) if exact else TOL * scale_of(v.base, pt)
                if abs(float(x) - float(c)) < sc:
                    return None
                if x < c:
                    idx = 2 * i
                    break
            if idx is None:
                idx = 2 * len(d.breaks)
            d = d.kids[idx]
        elif v.kind == "z":
            x = pt.val(v.base)
            if isinstance(x, (Fraction, int)) and x == 0:
                d = d.kids[1]
                continue
            sc = scale_of(v.base, pt)
            a = abs(float(x))
            if a < 1e-9 * sc:
                d = d.kids[1]
            elif a > 1e-5 * sc:
                d = d.kids[0]
            else:
                return None
        elif v.kind == "i":         # is-integer atom on a value number
            try:
                x = alg.eval_num(v.base, pt.env, pt.cache)
            except alg.EvalError:
                return None
            a = abs(float(x) - round(float(x)))
            if a < 1e-9 * (1 + abs(float(x))):
                d = d.kids[1]
            elif a > 1e-5:
                d = d.kids[0]
            else:
                return None
        else:
            b = bools.get(v.idx)
            if b is None:
                return None
            d = d.kids[1 if b else 0]
    return d.v


def float_poly(p, pt):
    tot = 0.0
    for m, c in p.d.items():
        t = float(c)
        for g, e in m:
            t *= float(alg.eval_gen(g, pt.env, pt.cache)) ** e
        tot += t
    return tot


NICE = [Fraction(x) for x in (0, 1, -1, 2, -2, 3, -3, 5, -5, 4, -4, 7, 10, -10)] + \
       [Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2), Fraction(-5, 2), Fraction(1, 4), Fraction(-3, 4),
        Fraction(25), Fraction(-40), Fraction(90), Fraction(-90), Fraction(180), Fraction(-180), Fraction(135),
        Fraction(-150), Fraction(100), Fraction(360), Fraction(-361), Fraction(541), Fraction(-725)]


def pick_in(iv, rng, integer=False):
    for _ in range(40):
        x = rng.choice(NICE)
        if integer and x.denominator != 1:
            continue
        if not Iv(x, False, x, False).meet(iv).empty():
            return x
    lo, hi = iv.lo, iv.hi
    if lo is not None and hi is not None:
        for _ in range(10):
            k = Fraction(rng.randrange(0, 17), 16)
            x = lo + (hi - lo) * k
            if integer:
                x = Fraction(math.floor(x))
            if not Iv(x, False, x, False).meet(iv).empty():
                return x
        return (lo + hi) / 2
    if lo is not None:
        return lo + rng.choice([1, 2, Fraction(1, 2), 5]) if not integer else Fraction(math.floor(lo) + 1)
    if hi is not None:
        return hi - rng.choice([1, 2, Fraction(1, 2), 5]) if not integer else Fraction(math.ceil(hi) - 1)
    return rng.choice(NICE)


def solve_linear(p, c, g, env):
    """value of sym g making p == c with the other syms fixed, if p is linear in g
    (top level only) or quadratic without a linear term."""
    if g in sym_nested_in(p):
        return None
    a, b = F0, F0
    cache = {}
    for m, k in p.d.items():
        md = dict(m)
        e = md.pop(g, 0)
        try:
            v = alg.eval_poly(Poly({tuple(sorted(md.items())): k}), env, cache)
        except alg.EvalError:
            return None
        if not isinstance(v, (Fraction, int)):
            v = Fraction(v).limit_denominator(10 ** 6)
        if e == 0:
            b += v
        elif e == 1:
            a += v
        else:
            return None
    if a == 0:
        return None
    return (c - b) / a


def sym_nested_in(p):
    try:
        _nest = alg.CTX.nest
    except AttributeError:
        _nest = alg.CTX.nest = {}
    r = _nest.get(p)
    if r is None:
        r = set()
        for g in p.gens():
            r |= nested_syms(g)
        _nest[p] = r
    return r


def simplest(lo, hi):
    """the rational of least denominator in [lo, hi]."""
    n = math.floor(lo)
    if n == lo:
        return Fraction(n)
    if n + 1 <= hi:
        return Fraction(n + 1)
    return n + 1 / simplest(1 / (hi - n), 1 / (lo - n))


def pick_box(iv, rng, integer):
    """a short rational well inside an interval."""
    if iv.lo is None or iv.hi is None:
        near = iv.lo if iv.lo is not None else iv.hi
        if near is not None and not integer and rng.random() < 0.5:
            off = rng.choice([Fraction(1, 1000), Fraction(1, 16), Fraction(1, 4), Fraction(3), Fraction(20)])
            return near + off if iv.lo is not None else near - off
        return pick_in(iv, rng, integer)
    if iv.lo == iv.hi:
        return iv.lo
    if integer or (iv.hi - iv.lo > 1 and rng.random() < 0.7):
        return pick_in(iv, rng, integer)
    w = (iv.hi - iv.lo) / 8
    k = rng.randrange(0, 6)
    return simplest(iv.lo + w * (k + 1), iv.lo + w * (k + 2))


def solve_iv(p, iv, g, box):
    """interval of g implied by p in iv, where p is linear in g."""
    a, b = {}, {}
    for m, c in p.d.items():
        md = dict(m)
        e = md.pop(g, 0)
        if e == 0:
            b[m] = c
        elif e == 1:
            a[tuple(sorted(md.items()))] = c
        else:
            return None
    A = alg.piv(Poly(a), box)
    B = alg.piv(Poly(b), box) if b else Iv(F0, False, F0, False)
    if A.lo is None or A.hi is None or A.lo <= 0 <= A.hi:
        return None
    r = iv.add(B.scale(Fraction(-1)))
    inv = Iv(1 / A.hi, A.hi_o, 1 / A.lo, A.lo_o)
    return r.mul(inv)


def guided(cons, syms, rng):
    """a start inside the linear part of a cell: one unknown at a time, each within the bounds that
    the constraints leave for it."""
    gens = alg.CTX.gens
    box = {g: gens[g].iv for g in syms}
    use = []
    for p, iv, nz in cons:
        if nz or iv.trivial():
            continue
        for g in p.gens():
            if g in box and g not in sym_nested_in(p):
                use.append((p, iv, g))

    def tighten():
        for _ in range(4):
            moved = False
            for p, iv, g in use:
                cur = box[g]
                if cur.lo is not None and cur.lo == cur.hi:
                    continue
                r = solve_iv(p, iv, g, box)
                if r is None:
                    continue
                n = cur.meet(r)
                if n.empty():
                    continue
                if n.lo != cur.lo or n.hi != cur.hi:
                    box[g] = n
                    moved = True
            if not moved:
                return
    order = list(syms)
    rng.shuffle(order)
    tighten()
    env = {}
    for g in order:
        x = pick_box(box[g], rng, gens[g].integer)
        env[g] = x
        box[g] = Iv(x, False, x, False)
        if use:
            tighten()
    return env


def violation(cons, pt):
    """sum of constraint violations at a point (0 = inside the cell)."""
    tot = 0.0
    worst = None
    for p, iv, nz in cons:
        try:
            x = pt.val(p)
        except (alg.EvalError, OverflowError):
            return None, (p, iv, nz)
        xf = float(x)
        bad = 0.0
        if nz:
            if abs(xf) < 1e-5:
                bad = 1.0
        else:
            mg = 1e-6
            for b in (iv.lo, iv.hi):
                if b:
                    mg = min(mg, abs(float(b)) / 8)
            if iv.lo is not None and iv.hi is not None:
                mg = min(mg, float(iv.hi - iv.lo) / 8)
            if iv.lo is not None:
                lo = float(iv.lo)
                if iv.lo == iv.hi:
                    if x != iv.lo:
                        bad = 1 + abs(xf - lo)
                elif xf < lo or (iv.lo_o and xf <= lo + mg):
                    bad = lo - xf + 1e-3
            if iv.hi is not None and iv.lo != iv.hi:
                hi = float(iv.hi)
                if xf > hi or (iv.hi_o and xf >= hi - mg):
                    bad = xf - hi + 1e-3
        if bad > 0:
            tot += min(bad, 1e6)
            if worst is None or bad > worst[0]:
                worst = (bad, (p, iv, nz))
    return tot, (worst[1] if worst else None)


def find_witness(bad, tries=40, steps=60, max_cells=2500, deadline=None):
    """returns (point dict, bools) inhabiting gate `bad`, or None; plus counts."""
    import time
    m = gates.MGR

    now = time.process_time()
    half = now + 0.6 * (deadline - now) if deadline else None

    def prune(acc):
        if half and time.process_time() > half:
            return False
        return cell_empty(acc)
    cells = m.cells(bad, limit=max_cells, prune=prune if m.paths(bad) > 40 else None)
    full = len(cells) < max_cells
    total = len(cells) + m.pruned if full else max_cells + 1
    n_empty = m.pruned if full else 0
    live = []
    for c in cells:
        if half and time.process_time() > half and live:
            break
        if deadline and time.process_time() > deadline:
            break
        if cell_empty(c):
            n_empty += 1
        else:
            live.append(c)
    if not live:
        return None, total, n_empty
    live.sort(key=lambda c: sum(1 for v, r in c if v.kind == "p" and r.lo is not None and r.lo == r.hi))
    per = max(3, tries * 8 // len(live))
    for c in live:
        if deadline and time.process_time() > deadline:
            break
        w = cell_point(c, bad, per, steps, deadline)
        if w is not None:
            return w, total, n_empty
    return None, total, n_empty


def cell_point(cell, bad, tries, steps, deadline=None):
    import time
    cons = cell_constraints(cell)
    bools = {v.idx: r for v, r in cell if v.kind not in ("p", "z", "i")}
    gids = set()
    for p, _, _ in cons:
        gids |= p.gens()
    for v, _ in cell:
        if v.kind == "i":
            gids |= v.base.n.gens()
            for f, _e in v.base.den:
                gids |= f.gens()
    # all syms of the whole gate (cheap superset)
    for var in dd_vars(bad):
        if var.kind in ("p", "z"):
            gids |= var.base.gens()
        elif var.kind == "i":
            gids |= var.base.n.gens()
            for f, _e in var.base.den:
                gids |= f.gens()
        elif var.idx not in bools:
            bools[var.idx] = False
    syms = sorted(sym_closure(gids))
    floors = [h for h in sorted(gids) if alg.CTX.gens[h].kind == "floor"]
    rng = random.Random(12345 + len(cell))
    narrow = any(not nz and iv.lo is not None and iv.hi is not None and 0 < iv.hi - iv.lo < Fraction(1, 10)
                 for _, iv, nz in cons)
    max_den = 10 ** 9 if narrow else 10 ** 4
    small = [Fraction(1, 10 ** 6), Fraction(1, 1000)]
    for _, iv, nz in cons:
        if not nz and iv.lo is not None and iv.hi is not None and 0 < iv.hi - iv.lo < Fraction(1, 10):
            w = Fraction(math.sqrt(iv.hi - iv.lo)).limit_denominator(10 ** 6) / 2
            small += [w, w, (iv.hi - iv.lo) / 2]
    large = []
    for _, iv, nz in cons:
        for b in (() if nz else (iv.lo, iv.hi)):
            if b is not None and 400 <= abs(b) <= 10 ** 13:
                large += [Fraction(round(abs(b))), Fraction(round(math.sqrt(abs(b))))]
    max_abs = max([5000] + [8 * b for b in large])
    use_guided = [iv for _, iv, nz in cons if not nz and not iv.trivial()]
    for t in range(tries):
        if deadline and time.process_time() > deadline:
            return None
        env = None
        if t % 2 and len(use_guided) > 1:
            try:
                env = guided(cons, syms, rng)
            except (ZeroDivisionError, OverflowError):
                env = None
        if env is None:
            env = {g: pick_in(alg.CTX.gens[g].iv, rng, alg.CTX.gens[g].integer) for g in syms}
        if large and t % 4 == 0:        # points far apart
            w = rng.choice(large)
            for g in syms:
                G = alg.CTX.gens[g]
                x = env[g] * w
                if not Iv(x, False, x, False).meet(G.iv).empty() and rng.random() < 0.8:
                    env[g] = x
        if narrow and t % 4 == 2:       # points close together
            base = {False: rng.choice(NICE[:8]), True: rng.choice(NICE[:8])}
            w = rng.choice(small)
            for g in syms:
                G = alg.CTX.gens[g]
                x = base[G.name.endswith("y")] + w * Fraction(rng.randrange(-8, 9), 8)
                if not G.integer and not Iv(x, False, x, False).meet(G.iv).empty():
                    env[g] = x
        pt = Point(env)
        tot, worst = violation(cons, pt)
        for k in range(steps):
            if tot == 0:
                break
            if worst is None:
                break
            p, iv, nz = worst
            gs = sorted(sym_closure(p.gens()))
            if not gs:
                break
            g = rng.choice(gs)
            cands = []
            if not nz and iv is not None:
                if iv.lo is not None and iv.lo == iv.hi:
                    x = solve_linear(p, iv.lo, g, env)
                    if x is not None:
                        cands.append(x)
                else:
                    for c in (iv.lo, iv.hi):
                        if c is None:
                            continue
                        off = rng.choice([1, 2, Fraction(1, 2), 5, Fraction(1, 8)])
                        tgt = c + off if c == iv.lo else c - off
                        if iv.lo is not None and iv.hi is not None:
                            tgt = (iv.lo + iv.hi) / 2
                        x = solve_linear(p, tgt, g, env)
                        if x is not None:
                            cands.append(x)
            for h in floors:        # steps of a floor
                a = alg.CTX.gens[h].args[0]
                if a.den or g not in sym_closure(a.n.gens()):
                    continue
                try:
                    v = pt.val(a.n)
                except (alg.EvalError, OverflowError):
                    continue
                x = solve_linear(a.n, Fraction(round(v) + rng.choice([0, 0, 1, -1])), g, env)
                if x is not None:
                    cands.append(x)
            cands.append(pick_in(alg.CTX.gens[g].iv, rng, alg.CTX.gens[g].integer))
            cands.append(env[g] * rng.choice([2, Fraction(1, 2), -1]) + rng.choice([0, 1, -1, Fraction(1, 2)]))
            best = None
            for x in cands:
                G = alg.CTX.gens[g]
                if G.integer and x.denominator != 1:
                    continue
                if abs(x) > max_abs or x.denominator > max_den:
                    continue
                if Iv(x, False, x, False).meet(G.iv).empty():
                    continue
                e2 = dict(env)
                e2[g] = x
                p2 = Point(e2)
                t2, w2 = violation(cons, p2)
                if t2 is None:
                    continue
                if best is None or t2 < best[0]:
                    best = (t2, w2, e2, p2)
            if best and (tot is None or best[0] <= tot or rng.random() < 0.25):
                tot, worst, env, pt = best
        if tot == 0:
            try:
                r = eval_dd(bad, pt, bools)
            except (alg.EvalError, OverflowError):
                r = None
            if r is True:
                return env, bools
    return None


def dd_vars(d):
    seen, out = set(), []
    todo = [d]
    vs = set()
    while todo:
        x = todo.pop()
        if x.uid in seen or not isinstance(x, gates.Node):
            continue
        seen.add(x.uid)
        if x.var.idx not in vs:
            vs.add(x.var.idx)
            out.append(x.var)
        todo.extend(x.kids)
    return out
