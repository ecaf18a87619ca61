"""triangles: construction, orientation, area, containment"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from contracts.lib import same_vec


def construct(a: Vec, b: Vec, c: Vec):
    t = Triangle2D(a, b, c)
    same_vec(t.a(), a, "a()")
    same_vec(t.b(), b, "b()")
    same_vec(t.c(), c, "c()")
    same_vec(t.a_(), a, "a_()")
    same_vec(t.b_(), b, "b_()")
    same_vec(t.c_(), c, "c_()")
    u = Triangle2D(Segment2D(a, b), c)
    same_vec(u.a(), a, "segment and point: a")
    same_vec(u.b(), b, "segment and point: b")
    same_vec(u.c(), c, "segment and point: c")


def assign(a: Vec, b: Vec, c: Vec):
    t = Triangle2D(c, c, c)
    r = t.assign(a, b, c)
    check(r is t, "assign returns the triangle")
    same_vec(t.a(), a, "assign a")
    same_vec(t.b(), b, "assign b")
    same_vec(t.c(), c, "assign c")
    t.assign(Segment2D(c, a), b)
    same_vec(t.a(), c, "assign segment: a")
    same_vec(t.b(), a, "assign segment: b")
    same_vec(t.c(), b, "assign segment: c")


def validity(a: Vec, b: Vec, c: Vec):
    ab = a.x() == b.x() and a.y() == b.y()
    bc = b.x() == c.x() and b.y() == c.y()
    ca = c.x() == a.x() and c.y() == a.y()
    check(Triangle2D(a, b, c).is_valid() == (not ab and not bc and not ca), "valid when the corners are distinct")


def areas(a: Vec, b: Vec, c: Vec):
    d = (b - a).outer_product(c - a)
    t = Triangle2D(a, b, c)
    check(close(t.double_signed_area(), d), "double_signed_area is the cross product")
    check(close(t.signed_area() * 2.0, d), "signed_area is half of it")
    check(close(t.area(), abs(t.signed_area())), "area is the magnitude of signed_area")
    check(t.area() >= 0.0, "area is non-negative")
    check(close(Triangle2D.double_signed_area_st(a, b, c), d), "double_signed_area_st agrees")
    check(close(Triangle2D.signed_area_st(a, b, c) * 2.0, d), "signed_area_st agrees")


def orientation(a: Vec, b: Vec, c: Vec):
    d = (b - a).outer_product(c - a)
    check(Triangle2D(a, b, c).ccw() == (d > 0.0), "ccw is a positive cross product")
    check(Triangle2D.tri_ccw(a, b, c) == (d > 0.0), "tri_ccw agrees")
    check(Triangle2D(b, c, a).ccw() == (d > 0.0), "orientation is kept by cyclic order")
    check(Triangle2D(b, a, c).ccw() == (d < 0.0), "orientation is reversed by a swap")


def area_symmetry(a: Vec, b: Vec, c: Vec, w: Vec):
    k = Triangle2D(a, b, c).area()
    check(close(Triangle2D(b, c, a).area(), k), "area: cyclic order")
    check(close(Triangle2D(c, b, a).area(), k), "area: reversed order")
    check(close(Triangle2D(a + w, b + w, c + w).area(), k), "area: translation")
    check(close(Triangle2D(a, b, c).signed_area(), -Triangle2D(b, a, c).signed_area()), "signed_area: swap")


def area_rotation(a: Vec, b: Vec, c: Vec, d: Ang):
    t = Triangle2D(a, b, c)
    u = Triangle2D(a.rotated_vector(d), b.rotated_vector(d), c.rotated_vector(d))
    check(close(u.signed_area(), t.signed_area()), "signed_area: rotation")


def containment(a: Vec, u: Vec, v: Vec, s: Real, t: Real):
    """x = a + s u + t v is in the triangle (a, a+u, a+v) iff s, t >= 0 and s + t <= 1"""
    assume(u.x() * v.y() - u.y() * v.x() != 0.0)
    k = Triangle2D(a, a + u, a + v)
    x = a + u * s + v * t
    inside = s >= 0.0 and t >= 0.0 and s + t <= 1.0
    check(k.contains(x) == inside, "contains is the closed triangle")


def containment_static(a: Vec, u: Vec, v: Vec, s: Real, t: Real):
    assume(u.x() * v.y() - u.y() * v.x() != 0.0)
    x = a + u * s + v * t
    inside = s >= 0.0 and t >= 0.0 and s + t <= 1.0
    check(Triangle2D.tri_contains(a, a + u, a + v, x) == inside, "tri_contains is the closed triangle")
    check(Triangle2D.tri_contains(a + u, a + v, a, x) == inside, "tri_contains: cyclic order")
    check(Triangle2D.tri_contains(a + v, a + u, a, x) == inside, "tri_contains: reversed order")


def corners(a: Vec, b: Vec, c: Vec):
    t = Triangle2D(a, b, c)
    check(t.contains(a), "the first corner is contained")
    check(t.contains(b), "the second corner is contained")
    check(t.contains(c), "the third corner is contained")
    check(t.contains((a + b) * 0.5), "the middle of an edge is contained")


def contains_agree(a: Vec, b: Vec, c: Vec, x: Vec):
    check(Triangle2D(a, b, c).contains(x) == Triangle2D.tri_contains(a, b, c, x), "contains agrees with tri_contains")
