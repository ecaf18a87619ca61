"""line construction: every way of building a line gives the line that was asked for"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from contracts.lib import same_line, on_line


def coefficients(a: Real, b: Real, c: Real):
    n = Line2D(a, b, c)
    check(close((n.a(), n.b(), n.c()), (a, b, c)), "Line2D(a, b, c)")
    k = Line2D(a=a, b=b, c=c)
    check(close((k.a(), k.b(), k.c()), (a, b, c)), "Line2D(a=, b=, c=)")
    same_line(Line2D(n), n, "Line2D(line)")
    same_line(Line2D(l=n), n, "Line2D(l=line)")
    same_line(n.copy(), n, "copy")
    check(n.copy() is not n, "copy is a new line")


def coefficients_int(a: Int, b: Int, c: Int):
    n = Line2D(a, b, c)
    check(close((n.a(), n.b(), n.c()), (a, b, c)), "Line2D(int, int, int)")


def coefficients_mixed(a: Int, b: Real, c: Int):
    n = Line2D(a, b, c)
    check(close((n.a(), n.b(), n.c()), (a, b, c)), "Line2D(int, float, int)")


def two_points(p: Vec, q: Vec):
    n = Line2D(p, q)
    on_line(n, p, "the first point is on the line")
    on_line(n, q, "the second point is on the line")
    same_line(Line2D(p1=p, p2=q), n, "Line2D(p1=, p2=) agrees")
    if p.x() != q.x() or p.y() != q.y():
        check(n.a() != 0.0 or n.b() != 0.0, "distinct points give a proper line")


def two_points_int(p: IntVec, q: IntVec):
    n = Line2D(p, q)
    on_line(n, p, "the first point is on the line")
    on_line(n, q, "the second point is on the line")


def points_between(p: Vec, q: Vec, t: Real):
    n = Line2D(p, q)
    on_line(n, p + (q - p) * t, "every point of the line through p and q is on the line")


def point_angle(p: Vec, a: Ang, t: Real):
    n = Line2D(p, a)
    on_line(n, p, "the point is on the line")
    on_line(n, Vector2D(p.x() + t * a.cos(), p.y() + t * a.sin()), "the line runs in the direction of the angle")
    check(close(n.a() * n.a() + n.b() * n.b(), 1.0), "unit normal")
    same_line(Line2D(p=p, a=a), n, "Line2D(p=, a=) agrees")


def point_number(p: Vec, d: Real, t: Real):
    n = Line2D(p, d)
    on_line(n, p, "the point is on the line")
    on_line(n, Vector2D(p.x() + t * cosd(d), p.y() + t * sind(d)), "the line runs in the direction of the number")
    check(close(n.a() * n.a() + n.b() * n.b(), 1.0), "unit normal")


def point_number_kw(p: Vec, d: Real):
    same_line(Line2D(p=p, a=d), Line2D(p, d), "Line2D(p=, a=number) agrees")


def point_int(p: Vec, d: Int, t: Real):
    n = Line2D(p, d)
    on_line(n, p, "the point is on the line")
    on_line(n, Vector2D(p.x() + t * cosd(d), p.y() + t * sind(d)), "the line runs in the direction of the integer")


def solve_for_x(a: Real, b: Real, c: Real, y: Real):
    n = Line2D(a, b, c)
    if abs(a) > 0.00001:
        x = n.get_x(y)
        check(close(a * x + b * y + c, 0.0), "get_x is on the line")


def solve_for_y(a: Real, b: Real, c: Real, x: Real):
    n = Line2D(a, b, c)
    if abs(b) > 0.00001:
        y = n.get_y(x)
        check(close(a * x + b * y + c, 0.0), "get_y is on the line")


def sentinel(b: Real, c: Real, x: Real):
    check(Line2D(0.0, b, c).get_x(x) >= 100000.0, "get_x of a horizontal line signals an error")
    check(Line2D(b, 0.0, c).get_y(x) >= 100000.0, "get_y of a vertical line signals an error")


def of_shapes(p: Vec, q: Vec):
    from pyrusgeom.segment_2d import Segment2D
    n = Segment2D(p, q).line()
    on_line(n, p, "segment line through the origin")
    on_line(n, q, "segment line through the terminal")
    same_line(n, Line2D(p, q), "segment line is the line of its end points")


def of_ray(p: Vec, a: Ang):
    from pyrusgeom.ray_2d import Ray2D
    same_line(Ray2D(p, a).line(), Line2D(p, a), "ray line is the line of its origin and direction")


def keywords(a: Real, b: Real, c: Real):
    """keyword arguments in any order"""
    assume(a * a + b * b > 0.0)
    e = Line2D(a, b, c)
    for n in (Line2D(a=a, b=b, c=c), Line2D(a=a, c=c, b=b), Line2D(b=b, a=a, c=c), Line2D(b=b, c=c, a=a), Line2D(c=c, a=a, b=b),
              Line2D(c=c, b=b, a=a)):
        check(close((n.a(), n.b(), n.c()), (a, b, c)), "the coefficients by name, in any order")


def keywords_points(p: Vec, q: Vec, d: DegOpen):
    assume(p.dist2(q) > 0.0)
    same_line(Line2D(p2=q, p1=p), Line2D(p, q), "two points by name, in any order")
    same_line(Line2D(p1=p, p2=q), Line2D(p, q), "two points by name")
    n = Line2D(a=d, p=p)
    m = Line2D(p, d)
    check(close((n.a(), n.b(), n.c()), (m.a(), m.b(), m.c())), "point and direction by name, in any order")
    k = Line2D(a=AngleDeg(d), p=p)
    check(close((k.a(), k.b(), k.c()), (m.a(), m.b(), m.c())), "point and angle by name, in any order")
