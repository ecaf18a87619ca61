"""equality compares every component"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.matrix_2d import Matrix2D


def _same(p, q, what):
    check(p == q, what + ": equal")
    check(q == p, what + ": equal the other way")
    check(not (p != q), what + ": not different")
    check(p == p, what + ": equal to itself")


def _differ(p, q, what):
    check(not (p == q), what + ": unequal")
    check(not (q == p), what + ": unequal the other way")
    check(p != q, what + ": different")


# vectors: exact

def vector_same(x: Real, y: Real):
    _same(Vector2D(x, y), Vector2D(x, y), "vectors with the same coordinates")
    _same(Vector2D(x, y), Vector2D(x, y).copy(), "a vector and its copy")
    check(Vector2D(x, y).equals(Vector2D(x, y)), "equals with the same coordinates")
    check(Vector2D(x, y).equals_weakly(Vector2D(x, y)), "equals_weakly with the same coordinates")


def vector_hash(x: Real, y: Real):
    p = Vector2D(x, y)
    q = Vector2D(x, y)
    check(hash(p) == hash(q), "equal vectors have equal hashes")
    check(hash(p) == hash(p), "the hash of a vector is stable")


def vector_hash_kinds():
    for a, b in ((1, 2), (0, -3), (-40, 0), (100000, 7)):
        p = Vector2D(a, b)
        for q in (Vector2D(float(a), float(b)), Vector2D(a, float(b)), Vector2D(float(a), b)):
            check(p == q and q == p, "an integer equals the same float")
            check(hash(p) == hash(q), "equal vectors have equal hashes, whatever the kind of number")


def vector_hash_zero():
    p = Vector2D(0.0, 3.0)
    q = Vector2D(-0.0, 3.0)
    check(not (p == q) or hash(p) == hash(q), "equal vectors have equal hashes at zero")


def vector_hash_validity(x: Real, y: Real):
    p = Vector2D(x, y)
    q = Vector2D(x, y)
    q.invalidate()
    check(not (p == q) or hash(p) == hash(q), "whatever vectors are equal have equal hashes")


def vector_hash_history(x: Real, y: Real, w: Real, z: Real):
    p = Vector2D(w, z)
    hash(p)
    p.assign(x, y)
    check(hash(p) == hash(Vector2D(x, y)), "the hash follows the coordinates")
    p = Vector2D(w, z)
    hash(p)
    p += Vector2D(x, y)
    check(hash(p) == hash(Vector2D(w + x, z + y)), "the hash follows the coordinates after +=")


def vector_x(x: Real, y: Real, w: Real):
    assume(w != x)
    _differ(Vector2D(x, y), Vector2D(w, y), "vectors with different x")
    check(not Vector2D(x, y).equals(Vector2D(w, y)), "equals with different x")


def vector_y(x: Real, y: Real, w: Real):
    assume(w != y)
    _differ(Vector2D(x, y), Vector2D(x, w), "vectors with different y")
    check(not Vector2D(x, y).equals(Vector2D(x, w)), "equals with different y")


def vector_any(p: Vec, q: Vec):
    check((p == q) == (p.x() == q.x() and p.y() == q.y()), "equality of vectors is equality of the coordinates")
    check((p == q) == (q == p), "equality of vectors is symmetric")
    check((p == q) != (p != q), "!= is the opposite of ==")
    check(p.equals(q) == (p == q), "equals and == agree")


def vector_swapped(x: Real, y: Real):
    check((Vector2D(x, y) == Vector2D(y, x)) == (x == y), "swapped coordinates are equal only when the same")


def vector_other(p: Vec):
    check(not (p == None), "a vector differs from None")
    check(not (p == 0), "a vector differs from a number")
    check(not (p == "text"), "a vector differs from a string")
    check(p != None, "a vector differs from None (!=)")


def vector_weak(p: Vec, q: Vec):
    assume(abs(p.x() - q.x()) < 0.0000009)
    assume(abs(p.y() - q.y()) < 0.0000009)
    check(p.equals_weakly(q), "coordinates below the tolerance are weakly equal")
    check(q.equals_weakly(p), "weakly equal the other way")


def vector_weak_x(p: Vec, q: Vec):
    assume(abs(p.x() - q.x()) > 0.0000011)
    check(not p.equals_weakly(q), "x above the tolerance")
    check(not q.equals_weakly(p), "x above the tolerance, the other way")


def vector_weak_y(p: Vec, q: Vec):
    assume(abs(p.y() - q.y()) > 0.0000011)
    check(not p.equals_weakly(q), "y above the tolerance")
    check(not q.equals_weakly(p), "y above the tolerance, the other way")


# angles: tolerant

def angle_same(d: Deg):
    _same(AngleDeg(d), AngleDeg(d), "angles of the same degree")
    check(AngleDeg(d) == AngleDeg(d).degree(), "an angle equals its degree")


def angle_weak(d: DegOpen, e: DegOpen):
    assume(abs(d - e) < 0.0000009)
    check(AngleDeg(d) == AngleDeg(e), "angles below the tolerance are equal")
    check(AngleDeg(d) == e, "an angle equals a number below the tolerance")


def angle_differ(d: DegOpen, e: DegOpen):
    assume(abs(d - e) > 0.0000011)
    _differ(AngleDeg(d), AngleDeg(e), "angles of different degree")
    check(not (AngleDeg(d) == e), "an angle differs from another number")


# segments: exact, and weak

def segment_same(p: Vec, q: Vec):
    _same(Segment2D(p, q), Segment2D(Vector2D(p), Vector2D(q)), "segments with the same ends")
    check(Segment2D(p, q).equals_weakly(Segment2D(p, q)), "weakly equal to itself")


def segment_origin(p: Vec, q: Vec, o: Vec):
    assume(not (p == o))
    _differ(Segment2D(p, q), Segment2D(o, q), "segments with different origins")


def segment_terminal(p: Vec, q: Vec, o: Vec):
    assume(not (q == o))
    _differ(Segment2D(p, q), Segment2D(p, o), "segments with different terminals")


def segment_reversed(p: Vec, q: Vec):
    check((Segment2D(p, q) == Segment2D(q, p)) == (p == q), "a segment differs from its reverse")


def segment_weak(p: Vec, q: Vec, x: Real, y: Real):
    assume(abs(x) < 0.0000009)
    assume(abs(y) < 0.0000009)
    o = p + Vector2D(x, y)
    t = q + Vector2D(y, x)
    check(Segment2D(p, q).equals_weakly(Segment2D(o, t)), "ends below the tolerance")


def segment_weak_origin(p: Vec, q: Vec, o: Vec):
    assume(abs(p.x() - o.x()) > 0.0000011 or abs(p.y() - o.y()) > 0.0000011)
    check(not Segment2D(p, q).equals_weakly(Segment2D(o, q)), "origin above the tolerance")


def segment_weak_terminal(p: Vec, q: Vec, o: Vec):
    assume(abs(q.x() - o.x()) > 0.0000011 or abs(q.y() - o.y()) > 0.0000011)
    check(not Segment2D(p, q).equals_weakly(Segment2D(p, o)), "terminal above the tolerance")


# rays

def ray_same(p: Vec, d: Deg):
    _same(Ray2D(p, d), Ray2D(p, d), "rays with the same origin and direction")
    _same(Ray2D(p, AngleDeg(d)), Ray2D(p, d), "rays from an angle and a number")


def ray_origin(p: Vec, q: Vec, d: Deg):
    assume(not (p == q))
    _differ(Ray2D(p, d), Ray2D(q, d), "rays with different origins")


def ray_direction(p: Vec, d: DegOpen, e: DegOpen):
    assume(abs(d - e) > 0.0000011)
    assume(abs(d - e) < 359.9)
    _differ(Ray2D(p, d), Ray2D(p, e), "rays with different directions")


# sizes

def size_same(a: Real, b: Real):
    _same(Size2D(a, b), Size2D(a, b), "sizes with the same sides")


def size_length(a: NonNeg, b: NonNeg, c: NonNeg):
    assume(abs(a - c) > 0.0000011)
    _differ(Size2D(a, b), Size2D(c, b), "sizes with different lengths")


def size_width(a: NonNeg, b: NonNeg, c: NonNeg):
    assume(abs(b - c) > 0.0000011)
    _differ(Size2D(a, b), Size2D(a, c), "sizes with different widths")


def size_close(a: NonNeg, b: NonNeg, c: NonNeg, d: NonNeg):
    assume(abs(a - c) < 0.0000009)
    assume(abs(b - d) < 0.0000009)
    _same(Size2D(a, b), Size2D(c, d), "sizes below the tolerance")


# sectors

def sector_same(p: Vec, m: NonNeg, k: Pos, d: Deg, e: Deg):
    _same(Sector2D(p, m, m + k, d, e), Sector2D(p, m, m + k, d, e), "sectors with the same components")


def sector_center_x(p: Vec, m: NonNeg, k: Pos, d: Deg, e: Deg, x: Real):
    assume(abs(x) > 0.0000011)
    _differ(Sector2D(p, m, m + k, d, e), Sector2D(p + Vector2D(x, 0.0), m, m + k, d, e), "sectors with different centers")


def sector_center_y(p: Vec, m: NonNeg, k: Pos, d: Deg, e: Deg, y: Real):
    assume(abs(y) > 0.0000011)
    _differ(Sector2D(p, m, m + k, d, e), Sector2D(p + Vector2D(0.0, y), m, m + k, d, e), "sectors with different centers")


def sector_min(p: Vec, m: NonNeg, n: NonNeg, k: Pos, d: Deg, e: Deg):
    assume(abs(m - n) > 0.0000011)
    _differ(Sector2D(p, m, m + n + k, d, e), Sector2D(p, n, m + n + k, d, e), "sectors with different inner radii")


def sector_max(p: Vec, m: NonNeg, k: Pos, j: Pos, d: Deg, e: Deg):
    assume(abs(j - k) > 0.0000011)
    _differ(Sector2D(p, m, m + k, d, e), Sector2D(p, m, m + j, d, e), "sectors with different outer radii")


def sector_start(p: Vec, m: NonNeg, k: Pos, d: DegOpen, e: Deg, f: DegOpen):
    assume(abs(d - f) > 0.0000011)
    _differ(Sector2D(p, m, m + k, d, e), Sector2D(p, m, m + k, f, e), "sectors with different starts")


def sector_end(p: Vec, m: NonNeg, k: Pos, d: Deg, e: DegOpen, f: DegOpen):
    assume(abs(e - f) > 0.0000011)
    _differ(Sector2D(p, m, m + k, d, e), Sector2D(p, m, m + k, d, f), "sectors with different ends")


# matrices

def _mat(a, b, c, d, x, y):
    return Matrix2D(a, b, c, d, x, y)


def matrix_same(a: Real, b: Real, c: Real, d: Real, x: Real, y: Real):
    _same(_mat(a, b, c, d, x, y), _mat(a, b, c, d, x, y), "matrices with the same elements")


def matrix_each(a: Real, b: Real, c: Real, d: Real, x: Real, y: Real, w: Real):
    p = _mat(a, b, c, d, x, y)
    assume(w != 0.0)
    _differ(p, _mat(a + w, b, c, d, x, y), "matrices differing in m11")
    _differ(p, _mat(a, b + w, c, d, x, y), "matrices differing in m12")
    _differ(p, _mat(a, b, c + w, d, x, y), "matrices differing in m21")
    _differ(p, _mat(a, b, c, d + w, x, y), "matrices differing in m22")
    _differ(p, _mat(a, b, c, d, x + w, y), "matrices differing in dx")
    _differ(p, _mat(a, b, c, d, x, y + w), "matrices differing in dy")


# lines: parallel and the same constant

def line_same(p: Vec, q: Vec):
    _same(Line2D(p, q), Line2D(p, q), "lines through the same points")


def line_const(p: Vec, d: Deg, t: Real):
    n = Line2D(p, d)
    m = Line2D(n.a(), n.b(), n.c() + t)
    assume(t != 0.0)
    _differ(n, m, "parallel lines with different constants")


def line_const_any(a: Real, b: Real, c: Real, t: Real):
    assume(t != c)
    _differ(Line2D(a, b, c), Line2D(a, b, t), "lines with different constants")


def line_opposite(a: Real, b: Real, c: Real):
    assume(c != 0.0)
    _differ(Line2D(a, b, c), Line2D(a, b, -c), "lines on either side of the origin")


def line_crossing(a: Real, b: Real, d: Real, e: Real, c: Real):
    assume(abs(a * e - b * d) > 0.0000011)
    _differ(Line2D(a, b, c), Line2D(d, e, c), "lines that cross")


# degenerate figures are told apart as any others

def segment_points(p: Vec, o: Vec):
    assume(abs(p.x() - o.x()) > 0.0000011 or abs(p.y() - o.y()) > 0.0000011)
    s = Segment2D(p, p)
    t = Segment2D(o, o)
    _differ(s, t, "single points")
    check(not s.equals_weakly(t) and not t.equals_weakly(s), "single points above the tolerance")
    _same(s, Segment2D(p.copy(), p.copy()), "the same point")
    check(s.equals_weakly(Segment2D(p, p)), "the same point, weakly")


def segment_turned(p: Vec, q: Vec):
    assume(abs(p.x() - q.x()) > 0.0000011 or abs(p.y() - q.y()) > 0.0000011)
    check(not Segment2D(p, q).equals_weakly(Segment2D(q, p)), "a segment and its reverse, weakly")


def segment_moved(p: Vec, q: Vec, u: Vec):
    assume(abs(u.x()) > 0.0000011 or abs(u.y()) > 0.0000011)
    s = Segment2D(p, q)
    t = Segment2D(p + u, q + u)
    check(not (s == t), "a segment moved along")
    check(not s.equals_weakly(t), "a segment moved along, weakly")


def sector_empty(p: Vec, o: Vec, r: NonNeg, d: DegOpen):
    """sectors of no area"""
    assume(abs(p.x() - o.x()) > 0.0000011 or abs(p.y() - o.y()) > 0.0000011)
    _differ(Sector2D(p, r, r, d, d), Sector2D(o, r, r, d, d), "sectors of no area with different centres")
    _differ(Sector2D(p, 0.0, 0.0, d, 10.0), Sector2D(o, 0.0, 0.0, d, 10.0), "sectors of no radius with different centres")


def sector_empty_radius(p: Vec, r: NonNeg, k: Pos, d: DegOpen):
    assume(k > 0.0000011)
    _differ(Sector2D(p, r, r, d, d), Sector2D(p, r, r + k, d, d), "sectors of no angle with different radii")


def size_zero(a: NonNeg, b: NonNeg):
    assume(a > 0.0000011)
    _differ(Size2D(0.0, a + b), Size2D(a, a + b), "sizes of zero and other length")
    _differ(Size2D(a + b, 0.0), Size2D(a + b, a), "sizes of zero and other width")
    _differ(Size2D(a, 0.0), Size2D(0.0, a), "sizes of no area")


def matrix_zero(x: Real, y: Real):
    assume(x != 0.0)
    z = Matrix2D(0.0, 0.0, 0.0, 0.0, 0.0, 0.0)
    for i in range(6):
        e = [0.0, 0.0, 0.0, 0.0, 0.0, 0.0]
        e[i] = x
        _differ(z, Matrix2D(e[0], e[1], e[2], e[3], e[4], e[5]), "the zero matrix and one with a single entry")
    _differ(Matrix2D(), Matrix2D.make_translation(x, y), "the identity and a translation")
    _differ(Matrix2D(), Matrix2D.make_translation(y, x), "the identity and another translation")


def vector_validity(x: Real, y: Real, w: Real):
    """equality looks at the coordinates alone"""
    p = Vector2D(x, y)
    q = Vector2D(x, y)
    q.invalidate()
    check(p == q and q == p and not (p != q), "an invalid vector equals a valid one with its coordinates")
    check(p.equals_weakly(q) and q.equals_weakly(p), "an invalid vector weakly equals a valid one with its coordinates")
    r = Vector2D(x, w)
    r.invalidate()
    assume(w != y)
    check(q != r and not (q == r), "invalid vectors with other coordinates differ")
