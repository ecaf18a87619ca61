"""lines: intersection, perpendicular, projection, distance, bisector"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from contracts.lib import same_line, on_line, same_vec, far


def intersection(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    n = Line2D(a, b, c)
    m = Line2D(d, e, f)
    det = a * e - b * d
    s = n.intersection(m)
    if abs(det) > 0.00001:
        check(s.is_valid(), "lines that are not parallel intersect")
        on_line(n, s, "the intersection is on the first line")
        on_line(m, s, "the intersection is on the second line")
    if det == 0.0:
        check(not s.is_valid(), "parallel lines have no intersection")
        check(n.is_parallel(m), "parallel lines are reported parallel")
    if abs(det) > 0.00001:
        check(not n.is_parallel(m), "lines that are not parallel are not reported parallel")


def intersection_consistent(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    n = Line2D(a, b, c)
    m = Line2D(d, e, f)
    check(n.intersection(m).is_valid() == (not n.is_parallel(m)), "an intersection exists unless parallel")


def intersection_commutes(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    n = Line2D(a, b, c)
    m = Line2D(d, e, f)
    same_vec(n.intersection(m), m.intersection(n), "intersection is symmetric")
    same_vec(Line2D.line_intersection(n, m), n.intersection(m), "line_intersection is intersection")
    check(n.is_parallel(m) == m.is_parallel(n), "is_parallel is symmetric")


def intersection_integers(a: Int, b: Int, c: Int, d: Int, e: Int, f: Int):
    n = Line2D(a, b, c)
    m = Line2D(d, e, f)
    assume(a * e != b * d)
    s = n.intersection(m)
    check(s.is_valid(), "lines that are not parallel intersect")
    on_line(n, s, "the intersection is on the first line")
    on_line(m, s, "the intersection is on the second line")


def four_points(p: Vec, q: Vec, r: Vec, s: Vec):
    n = Line2D(p, q)
    m = Line2D(r, s)
    assume(abs((q - p).outer_product(s - r)) > 0.000002)
    x = n.intersection(m)
    check(x.is_valid(), "two lines through points intersect")
    check(close((x - p).outer_product(q - p), 0.0), "the crossing is on the first line")
    check(close((x - r).outer_product(s - r), 0.0), "the crossing is on the second line")


def perpendicular(a: Real, b: Real, c: Real, p: Vec):
    n = Line2D(a, b, c)
    m = n.perpendicular(p)
    on_line(m, p, "the perpendicular passes through the point")
    check(close(m.a() * a + m.b() * b, 0.0), "the perpendicular is at right angles")
    check(close(m.a() * m.a() + m.b() * m.b(), a * a + b * b), "the perpendicular is a proper line")
    same_line(n, Line2D(a, b, c), "the line is kept")


def projection(a: Real, b: Real, c: Real, p: Vec):
    assume(a * a + b * b > 0.000002)
    n = Line2D(a, b, c)
    q = n.projection(p)
    check(q.is_valid(), "a projection exists")
    on_line(n, q, "the projection is on the line")
    check(close((p.x() - q.x()) * b - (p.y() - q.y()) * a, 0.0), "the projection is along the normal")


def projection_of_point_on_line(p: Vec, q: Vec, t: Real):
    assume((q - p).r2() > 0.000002)
    n = Line2D(p, q)
    x = p + (q - p) * t
    y = n.projection(x)
    check(close((y.x(), y.y()), (x.x(), x.y())), "a point of the line is its own projection")


def distance(a: Real, b: Real, c: Real, p: Vec):
    assume(a * a + b * b > 0.0)
    n = Line2D(a, b, c)
    d = n.dist(p)
    check(d >= 0.0, "dist is non-negative")
    check(close(d * d, n.dist2(p)), "dist squared is dist2")
    e = a * p.x() + b * p.y() + c
    check(close(n.dist2(p) * (a * a + b * b), e * e), "dist2 is the squared distance")


def distance_to_projection(a: Real, b: Real, c: Real, p: Vec):
    assume(a * a + b * b > 0.000002)
    n = Line2D(a, b, c)
    check(close(n.dist2(p), p.dist2(n.projection(p))), "dist2 is the distance to the projection")


def distance_two_points(p: Vec, q: Vec, x: Vec):
    assume((q - p).r2() > 0.0)
    n = Line2D(p, q)
    o = (q - p).outer_product(x - p)
    check(close(n.dist2(x) * (q - p).r2(), o * o), "distance to the line through two points")
    check(close(n.dist(p), 0.0), "a point of the line has distance 0")


def perpendicular_bisector(p: Vec, q: Vec, t: Real):
    assume(far(p, q))
    n = Line2D.perpendicular_bisector(p, q)
    mid = (p + q) * 0.5
    on_line(n, mid, "the bisector passes through the middle")
    check(close(n.a() * (q.y() - p.y()) - n.b() * (q.x() - p.x()), 0.0), "the bisector is at right angles")
    check(n.a() != 0.0 or n.b() != 0.0, "the bisector is a proper line")
    x = Vector2D(mid.x() - t * n.b(), mid.y() + t * n.a())
    check(close(x.dist2(p), x.dist2(q)), "points of the bisector are equally far from both")


def perpendicular_bisector_swap(p: Vec, q: Vec, t: Real):
    assume(far(p, q))
    n = Line2D.perpendicular_bisector(p, q)
    m = Line2D.perpendicular_bisector(q, p)
    check(close(n.a() * m.b() - n.b() * m.a(), 0.0), "swapped bisector is parallel")
    check(close(n.a() * m.c() - n.c() * m.a(), 0.0), "swapped bisector is the same line (x)")
    check(close(n.b() * m.c() - n.c() * m.b(), 0.0), "swapped bisector is the same line (y)")


def segment_bisector(p: Vec, q: Vec):
    from pyrusgeom.segment_2d import Segment2D
    assume(far(p, q))
    same_line(Segment2D(p, q).perpendicular_bisector(), Line2D.perpendicular_bisector(p, q),
              "the segment's bisector is the bisector of its ends")


def angle_bisector(o: Vec, a: Ang, b: Ang):
    n = Line2D.angle_bisector(o, a, b)
    on_line(n, o, "the angle bisector passes through its origin")
    k = AngleDeg.bisect(a, b)
    check(close(n.a() * k.cos() + n.b() * k.sin(), 0.0), "the angle bisector runs along the bisecting direction")
    check(close(n.a() * n.a() + n.b() * n.b(), 1.0), "the angle bisector is a proper line")


def equality(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    n = Line2D(a, b, c)
    m = Line2D(d, e, f)
    check(n == Line2D(a, b, c), "a line equals a line with the same coefficients")
    check((n == m) == (m == n), "line equality is symmetric")
    if abs(a * e - b * d) > 0.00001:
        check(not (n == m), "lines that are not parallel differ")


def perpendicular_bisector_coincident(p: Vec):
    n = Line2D.perpendicular_bisector(p, Vector2D(p.x(), p.y()))
    on_line(n, p, "the bisector of coincident points passes through them")
    check(n.a() != 0.0 or n.b() != 0.0, "the bisector of coincident points is a proper line")


def distance_scaled(a: Real, b: Real, c: Real, p: Vec):
    """the distance does not depend on the scale of the coefficients"""
    assume(a * a + b * b > 0.5)
    m = Line2D(a, b, c)
    for k in (0.0001, 1000.0):
        n = Line2D(a * k, b * k, c * k)
        check(close(n.dist2(p), m.dist2(p)), "dist2 of scaled coefficients")
        check(close(n.dist(p), m.dist(p)), "dist of scaled coefficients")
