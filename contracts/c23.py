"""circles: intersections"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.circle_2d import Circle2D, quadratic_f
from contracts.lib import same_xy, on_line


def _on_circle(o, r, s, what):
    check(close((s.x() - o.x()) * (s.x() - o.x()) + (s.y() - o.y()) * (s.y() - o.y()), r * r), what)


def quadratic(a: Real, b: Real, c: Real):
    d = b * b - 4.0 * a * c
    assume(a != 0.0)
    assume(abs(d) > 0.001)
    s = quadratic_f(a, b, c)
    if d < 0.0:
        check(len(s) == 0, "no real roots")
    else:
        check(len(s) == 2, "two real roots")
        check(close(a * s[0] * s[0] + b * s[0] + c, 0.0), "the first is a root")
        check(close(a * s[1] * s[1] + b * s[1] + c, 0.0), "the second is a root")
        check(close(a * (s[0] + s[1]), -b), "the roots are the two roots")


def quadratic_double(a: Real, k: Real):
    assume(a != 0.0)
    s = quadratic_f(a, -2.0 * a * k, a * k * k)
    check(len(s) == 2, "a double root is returned twice")
    check(close((s[0], s[1]), (k, k)), "the double root")


def quadratic_linear(b: Real, c: Real):
    n = 0
    try:
        quadratic_f(0.0, b, c)
        n = 1
    except Exception:
        n = 2
    check(n == 2, "a linear equation is refused")


def line_general(o: Vec, r: NonNeg, a: Real, b: Real, c: Real):
    assume(abs(a) > 0.001)
    e = a * o.x() + b * o.y() + c
    d = (a * a + b * b) * r * r - e * e
    assume(abs(d) > 0.001 * a * a)
    n = Line2D(a, b, c)
    s = Circle2D(o, r).intersection(n)
    check(len(s) <= 2, "at most two points")
    if d < 0.0:
        check(len(s) == 0, "a line passing outside is not met")
    else:
        check(len(s) > 0, "a line through the circle is met")
    if len(s) > 0:
        on_line(n, s[0], "first point on the line")
        _on_circle(o, r, s[0], "first point on the circle")
    if len(s) > 1:
        on_line(n, s[1], "second point on the line")
        _on_circle(o, r, s[1], "second point on the circle")


def line_two(o: Vec, r: NonNeg, a: Real, b: Real, c: Real):
    """a line well inside gives two different points"""
    assume(abs(a) > 0.001)
    e = a * o.x() + b * o.y() + c
    w = a * a + b * b
    d = w * r * r - e * e
    assume(d > 0.001 * w * w)
    assume(d > 0.001 * a * a)
    s = Circle2D(o, r).intersection(Line2D(a, b, c))
    check(len(s) == 2, "two points")
    if len(s) == 2:
        check(close((s[0].x() - s[1].x()) * (s[0].x() - s[1].x()) * w * w
                    + (s[0].y() - s[1].y()) * (s[0].y() - s[1].y()) * w * w, 4.0 * d * w), "the chord has its length")


def line_horizontal(o: Vec, r: NonNeg, k: Real):
    """lines y = k"""
    d = r * r - (k - o.y()) * (k - o.y())
    assume(abs(d) > 0.001)
    s = Circle2D(o, r).intersection(Line2D(Vector2D(0.0, k), Vector2D(1.0, k)))
    if d < 0.0:
        check(len(s) == 0, "a horizontal line passing outside is not met")
    else:
        check(len(s) == 2, "a horizontal line through the circle is met twice")
        check(close((s[0].y(), s[1].y()), (k, k)), "both points on the line")
        _on_circle(o, r, s[0], "first point on the circle (horizontal)")
        _on_circle(o, r, s[1], "second point on the circle (horizontal)")
        check(s[0].x() > s[1].x() or s[0].x() < s[1].x(), "the points differ")


def line_degenerate(o: Vec, r: NonNeg, c: Real):
    check(len(Circle2D(o, r).intersection(Line2D(0.0, 0.0, c))) == 0, "no intersection with a line without direction")


def tangent(o: Vec, r: Pos, a: Ang):
    """the tangent at the direction a of the circle"""
    assume(r > 0.002)
    assume(abs(a.cos()) > 0.002)
    x = o + Vector2D.from_polar(r, a)
    n = Line2D(a.cos(), a.sin(), -(x.x() * a.cos() + x.y() * a.sin()))
    s = Circle2D(o, r).intersection(n)
    check(len(s) == 1, "a tangent has one point")
    if len(s) == 1:
        check(close((s[0].x(), s[0].y()), (x.x(), x.y())), "the point of tangency")


def _circle(o, w, h):
    """the circle around o that the line at the distance h cuts in a chord of length 2w"""
    return Circle2D(o, Vector2D(w, h).r())


def ray_right(o: Vec, w: Pos, h: Real, t: Real):
    """a ray to the right at the height h above the centre, starting at the x offset t"""
    assume(w > 0.002)
    assume(abs(t - w) > 0.002)
    assume(abs(t + w) > 0.002)
    k = o.y() + h
    s = _circle(o, w, h).intersection(Ray2D(Vector2D(o.x() + t, k), 0.0))
    if abs(t) < w:
        check(len(s) == 1, "a ray from inside meets the circle once")
        check(close((s[0].x(), s[0].y()), (o.x() + w, k)), "ahead of the origin")
    if t < -w:
        check(len(s) == 2, "a ray towards the circle meets it twice")
    if t > w:
        check(len(s) == 0, "a ray leading away misses the circle")


def ray_left(o: Vec, w: Pos, h: Real, t: Real):
    assume(w > 0.002)
    assume(abs(t - w) > 0.002)
    assume(abs(t + w) > 0.002)
    k = o.y() + h
    s = _circle(o, w, h).intersection(Ray2D(Vector2D(o.x() + t, k), 180.0))
    if abs(t) < w:
        check(len(s) == 1, "a ray to the left from inside meets the circle once")
        check(close((s[0].x(), s[0].y()), (o.x() - w, k)), "ahead of the origin")
    if t > w:
        check(len(s) == 2, "a ray to the left towards the circle meets it twice")
    if t < -w:
        check(len(s) == 0, "a ray to the left leading away misses the circle")


def ray_up(o: Vec, w: Pos, h: Real, t: Real):
    assume(w > 0.002)
    assume(abs(t - w) > 0.002)
    assume(abs(t + w) > 0.002)
    k = o.x() + h
    s = _circle(o, w, h).intersection(Ray2D(Vector2D(k, o.y() + t), 90.0))
    if abs(t) < w:
        check(len(s) == 1, "a ray upwards from inside meets the circle once")
        check(close((s[0].x(), s[0].y()), (k, o.y() + w)), "ahead of the origin")
    if t < -w:
        check(len(s) == 2, "a ray upwards towards the circle meets it twice")
    if t > w:
        check(len(s) == 0, "a ray upwards leading away misses the circle")


def ray_any(o: Vec, r: Pos, a: Ang):
    """a ray from the centre"""
    assume(r > 0.002)
    assume(abs(a.sin()) > 0.002)
    s = Circle2D(o, r).intersection(Ray2D(o, a))
    check(len(s) == 1, "a ray from the centre meets the circle once")
    if len(s) == 1:
        check(close((s[0].x(), s[0].y()), (o.x() + r * a.cos(), o.y() + r * a.sin())), "in its direction")


def segment_horizontal(o: Vec, w: Pos, h: Real, p: Real, q: Real):
    """a horizontal segment between the x offsets p < q"""
    assume(w > 0.002)
    assume(q - p > 0.002)
    assume(abs(p - w) > 0.002)
    assume(abs(p + w) > 0.002)
    assume(abs(q - w) > 0.002)
    assume(abs(q + w) > 0.002)
    k = o.y() + h
    s = _circle(o, w, h).intersection(Segment2D(Vector2D(o.x() + p, k), Vector2D(o.x() + q, k)))
    n = 0
    if p < w and w < q:
        n = n + 1
    if p < -w and -w < q:
        n = n + 1
    check(len(s) == n, "a segment meets the circle where it crosses it")
    if len(s) == 1:
        check(close(s[0].y(), k), "the point is on the segment")
        if p < -w:
            check(close(s[0].x(), o.x() - w), "where the segment enters")
        else:
            check(close(s[0].x(), o.x() + w), "where the segment leaves")


def segment_vertical(o: Vec, w: Pos, h: Real, p: Real, q: Real):
    assume(w > 0.002)
    assume(q - p > 0.002)
    assume(abs(p - w) > 0.002)
    assume(abs(p + w) > 0.002)
    assume(abs(q - w) > 0.002)
    assume(abs(q + w) > 0.002)
    k = o.x() + h
    s = _circle(o, w, h).intersection(Segment2D(Vector2D(k, o.y() + p), Vector2D(k, o.y() + q)))
    n = 0
    if p < w and w < q:
        n = n + 1
    if p < -w and -w < q:
        n = n + 1
    check(len(s) == n, "a vertical segment meets the circle where it crosses it")
    if len(s) == 1:
        check(close(s[0].x(), k), "the point is on the vertical segment")


def circles(o: Vec, x: Real, y: Pos, d: Real):
    """circles around o and a point d to the right, through the point o + (x, y)"""
    assume(abs(d) > 0.002)
    assume(y > 0.002)
    p = Vector2D(o.x() + d, o.y())
    c = Circle2D(o, Vector2D(x, y).r())
    k = Circle2D(p, Vector2D(x - d, y).r())
    s = c.intersection(k)
    check(len(s) == 2, "circles through a common point off the line of centres meet twice")
    if len(s) == 2:
        check(close((s[0].x(), s[1].x()), (o.x() + x, o.x() + x)), "at the common point and its mirror image (x)")
        check(close((s[0].y(), s[1].y()), (o.y() + y, o.y() - y)), "at the common point and its mirror image (y)")


def circles_vertical(o: Vec, x: Pos, y: Real, d: Real):
    assume(abs(d) > 0.002)
    assume(x > 0.002)
    p = Vector2D(o.x(), o.y() + d)
    c = Circle2D(o, Vector2D(x, y).r())
    k = Circle2D(p, Vector2D(x, y - d).r())
    s = c.intersection(k)
    check(len(s) == 2, "circles one above the other through a common point meet twice")
    if len(s) == 2:
        check(close((s[0].y(), s[1].y()), (o.y() + y, o.y() + y)), "at the common point and its mirror image (y)")
        check(close((s[0].x(), s[1].x()), (o.x() + x, o.x() - x)), "at the common point and its mirror image (x)")


def circles_general(o: Vec, p: Vec, r: Pos, q: Pos):
    x = p.x() - o.x()
    y = p.y() - o.y()
    d2 = x * x + y * y
    assume(abs(x) > 0.002)
    s = Circle2D(o, r).intersection(Circle2D(p, q))
    if d2 > (r + q) * (r + q):
        check(len(s) == 0, "circles apart do not meet")
    if d2 < (r - q) * (r - q):
        check(len(s) == 0, "a circle inside another does not meet it")


def circles_concentric(o: Vec, r: Pos, q: Pos):
    check(len(Circle2D(o, r).intersection(Circle2D(o, q))) == 0, "concentric circles have no single intersections")


def named_forms(o: Vec, r: Pos, a: Real, b: Real, c: Real):
    assume(abs(a) > 0.001)
    s = Circle2D(o, r).intersection(Line2D(a, b, c))
    t = Circle2D(o, r).intersection_with_line(Line2D(a, b, c))
    check(len(s) == len(t), "intersection_with_line agrees")


def line_slight(r: Pos, a: Real):
    """lines through the centre with a small slope"""
    assume(r > 0.1 and r < 100.0)
    assume(0.000002 < a < 1.0)
    l = Circle2D(Vector2D(0.0, 0.0), r).intersection(Line2D(a, 1.0, 0.0))
    check(len(l) == 2, "a line through the centre meets the circle twice")
    for s in l:
        check(close(a * s.x() + s.y(), 0.0), "the points are on a nearly level line")
        check(close(s.r2(), r * r), "the points of a nearly level line are on the circle")


def line_tilted(r: Pos, b: Real):
    assume(r > 0.1 and r < 100.0)
    assume(-1.0 < b < -0.000002)
    l = Circle2D(Vector2D(0.0, 0.0), r).intersection(Line2D(1.0, b, 0.0))
    check(len(l) == 2, "a steep line through the centre meets the circle twice")
    for s in l:
        check(close(s.x() + b * s.y(), 0.0), "the points are on a nearly upright line")
        check(close(s.r2(), r * r), "the points of a nearly upright line are on the circle")


def circles_touching():
    """circles that touch have one common point, from outside and from inside (figures whose arithmetic is exact)"""
    for x, y, r, s, u, v in ((3.0, 0.0, 1.0, 2.0, 1.0, 0.0), (0.0, 3.0, 1.0, 2.0, 0.0, 1.0), (-3.0, 0.0, 2.0, 1.0, -2.0, 0.0), (3.0, 4.0, 2.5, 2.5, 1.5, 2.0),
                             (1.0, 0.0, 2.0, 1.0, 2.0, 0.0), (0.0, -1.0, 2.0, 1.0, 0.0, -2.0), (1.0, 0.0, 1.0, 2.0, -1.0, 0.0), (-3.0, 4.0, 7.5, 2.5, -4.5, 6.0)):
        for p in (Vector2D(0.0, 0.0), Vector2D(4.0, -2.0)):
            c = Circle2D(p, r)
            d = Circle2D(Vector2D(p.x() + x, p.y() + y), s)
            for g in (c.intersection(d), d.intersection(c)):
                check(len(g) == 1, "touching circles have one common point")
                if len(g) == 1:
                    check(close((g[0].x(), g[0].y()), (p.x() + u, p.y() + v)), "the point where circles touch")


def circles_near():
    """just crossing, just apart"""
    for e in (0.01, 0.0001):
        for x, y in ((3.0, 0.0), (0.0, -3.0), (-1.8, 2.4)):
            c = Circle2D(Vector2D(2.0, 1.0), 1.0)
            check(len(c.intersection(Circle2D(Vector2D(2.0 + x, 1.0 + y), 2.0 - e))) == 0, "circles apart have no common point")
            check(len(c.intersection(Circle2D(Vector2D(2.0 + x, 1.0 + y), 2.0 + e))) == 2, "crossing circles have two common points")
            check(len(c.intersection(Circle2D(Vector2D(2.0 + x, 1.0 + y), 4.0 - e))) == 2, "circles crossing near the far side have two common points")
            check(len(c.intersection(Circle2D(Vector2D(2.0 + x, 1.0 + y), 4.0 + e))) == 0, "a circle inside another has no common point with it")
