"""triangles: intersection with lines, rays, segments"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from contracts.lib import same_xy


def _same_pair(got, e, f, what):
    """the two points, in either order"""
    check(got[0] == 2, what + ": two points")
    a = (got[1].x(), got[1].y())
    b = (got[2].x(), got[2].y())
    p = (e.x(), e.y())
    q = (f.x(), f.y())
    check((close(a, p) and close(b, q)) or (close(a, q) and close(b, p)), what + ": the crossing points")


def _corners(k, p, q, r):
    """the k-th rotation of the corners"""
    if k == 0:
        return Triangle2D(p, q, r)
    if k == 1:
        return Triangle2D(q, r, p)
    return Triangle2D(r, p, q)


def line_missing(p: Vec, q: Vec, r: Vec, y: Real):
    """a horizontal line beside all corners"""
    assume((p.y() < y - 0.0001 and q.y() < y - 0.0001 and r.y() < y - 0.0001)
           or (p.y() > y + 0.001 and q.y() > y + 0.001 and r.y() > y + 0.001))
    got = Triangle2D(p, q, r).intersection(Line2D(0.0, 1.0, -y))
    check(got[0] == 0, "a line beside the triangle does not meet it")


def line_missing_vertical(p: Vec, q: Vec, r: Vec, x: Real):
    assume((p.x() < x - 0.0001 and q.x() < x - 0.0001 and r.x() < x - 0.0001)
           or (p.x() > x + 0.001 and q.x() > x + 0.001 and r.x() > x + 0.001))
    got = Triangle2D(p, q, r).intersection(Line2D(1.0, 0.0, -x))
    check(got[0] == 0, "a vertical line beside the triangle does not meet it")


def _right(n):
    """a right triangle of side lengths 4"""
    return _corners(n, Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0))


def ray_through(y: Real, x: Real):
    """horizontal rays at the height y from x to the right"""
    assume(y > 0.0001 and y < 3.9)
    e = Vector2D(0.0, y)
    f = Vector2D(4.0 - y, y)
    for k in range(3):
        got = _right(k).intersection(Ray2D(Vector2D(x, y), AngleDeg(0.0)))
        if x < -0.01:
            _same_pair(got, e, f, "a ray from outside crosses twice")
        if x > 0.01 and x < 4.0 - y - 0.01:
            check(got[0] == 1, "a ray from inside crosses once")
            if got[0] == 1:
                same_xy(got[1], f.x(), f.y(), "a ray from inside leaves through the edge ahead")
        if x > 4.0 - y + 0.01:
            check(got[0] == 0, "a ray pointing away does not cross")


def ray_back(y: Real, x: Real):
    """horizontal rays to the left"""
    assume(y > 0.0001 and y < 3.9)
    e = Vector2D(0.0, y)
    f = Vector2D(4.0 - y, y)
    for k in range(3):
        got = _right(k).intersection(Ray2D(Vector2D(x, y), AngleDeg(180.0)))
        if x < -0.01:
            check(got[0] == 0, "a ray pointing away to the left does not cross")
        if x > 0.01 and x < 4.0 - y - 0.01:
            check(got[0] == 1, "a ray from inside to the left crosses once")
            if got[0] == 1:
                same_xy(got[1], e.x(), e.y(), "a ray from inside leaves to the left")
        if x > 4.0 - y + 0.01:
            _same_pair(got, e, f, "a ray from the right crosses twice")


def segment_through(y: Real, a: Real, b: Real):
    """horizontal segments at the height y from a to b"""
    assume(y > 0.0001 and y < 3.9)
    assume(b - a > 0.0001)
    e = Vector2D(0.0, y)
    f = Vector2D(4.0 - y, y)
    for k in range(3):
        got = _right(k).intersection(Segment2D(Vector2D(a, y), Vector2D(b, y)))
        left = a < -0.01 and b > 0.01
        right = a < 4.0 - y - 0.01 and b > 4.0 - y + 0.01
        if left and right:
            _same_pair(got, e, f, "a segment through the triangle")
        if left and b < 4.0 - y - 0.01:
            check(got[0] == 1, "a segment ending inside crosses once")
            if got[0] == 1:
                same_xy(got[1], e.x(), e.y(), "it crosses the edge it enters through")
        if right and a > 0.01:
            check(got[0] == 1, "a segment starting inside crosses once")
            if got[0] == 1:
                same_xy(got[1], f.x(), f.y(), "it crosses the edge it leaves through")
        if b < -0.01 or a > 4.0 - y + 0.01 or (a > 0.01 and b < 4.0 - y - 0.01):
            check(got[0] == 0, "a segment beside or inside the triangle does not cross")


def segment_reversed(y: Real, a: Real, b: Real):
    assume(y > 0.0001 and y < 3.9)
    assume(b - a > 0.0001)
    assume(abs(a) > 0.0001 and abs(b) > 0.0001 and abs(a - 4.0 + y) > 0.0001 and abs(b - 4.0 + y) > 0.0001)
    s = _right(0).intersection(Segment2D(Vector2D(a, y), Vector2D(b, y)))
    t = _right(0).intersection(Segment2D(Vector2D(b, y), Vector2D(a, y)))
    check(s[0] == t[0], "the direction of the segment does not matter")


def _scalene(k):
    return _corners(k, Vector2D(0.0, 0.0), Vector2D(6.0, 1.0), Vector2D(2.0, 4.0))


def line_horizontal(y: Real):
    """horizontal lines across a scalene triangle, at any height"""
    n = Line2D(0.0, 1.0, -y)
    for k in range(3):
        got = _scalene(k).intersection(n)
        if y > 0.01 and y < 0.99:
            _same_pair(got, Vector2D(0.5 * y, y), Vector2D(6.0 * y, y), "below the middle corner")
        if y > 1.01 and y < 3.99:
            _same_pair(got, Vector2D(0.5 * y, y), Vector2D(6.0 - (y - 1.0) * 4.0 / 3.0, y), "above the middle corner")
        if y < -0.01 or y > 4.01:
            check(got[0] == 0, "a line beside the triangle meets it nowhere")


def line_vertical(x: Real):
    """vertical lines across a scalene triangle, at any place"""
    n = Line2D(1.0, 0.0, -x)
    for k in range(3):
        got = _scalene(k).intersection(n)
        if x > 0.01 and x < 1.99:
            _same_pair(got, Vector2D(x, 2.0 * x), Vector2D(x, x / 6.0), "left of the upper corner")
        if x > 2.01 and x < 5.99:
            _same_pair(got, Vector2D(x, x / 6.0), Vector2D(x, 4.0 - (x - 2.0) * 0.75), "right of the upper corner")
        if x < -0.01 or x > 6.01:
            check(got[0] == 0, "a vertical line beside the triangle meets it nowhere")


def line_oblique(c: Real):
    """lines x + y = c across a right triangle turned by the corners"""
    n = Line2D(1.0, 1.0, -c)
    for k in range(3):
        got = _corners(k, Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 6.0)).intersection(n)
        if c > 0.01 and c < 3.99:
            _same_pair(got, Vector2D(c, 0.0), Vector2D(0.0, c), "across both legs")
        if c > 4.01 and c < 5.99:
            _same_pair(got, Vector2D(0.0, c), Vector2D(12.0 - 2.0 * c, 3.0 * c - 12.0), "across leg and hypotenuse")
        if c < -0.01 or c > 6.01:
            check(got[0] == 0, "an oblique line beside the triangle meets it nowhere")


def _general(k, a, b, h):
    return _corners(k, Vector2D(0.0, 0.0), Vector2D(a, 0.0), Vector2D(b, h))


def line_general(a: Pos, b: Real, h: Pos, t: Frac):
    """any triangle with a horizontal base, horizontal lines between base and top"""
    assume(a > 1.0 and h > 1.0 and t > 0.1 and t < 0.9)
    y = h * t
    got = _general(0, a, b, h).intersection(Line2D(0.0, 1.0, -y))
    _same_pair(got, Vector2D(b * t, y), Vector2D(a + (b - a) * t, y), "parallel to the base")


def line_general_turned(a: Pos, b: Real, h: Pos, t: Frac):
    assume(a > 1.0 and h > 1.0 and t > 0.1 and t < 0.9)
    y = h * t
    got = _general(1, a, b, h).intersection(Line2D(0.0, 1.0, -y))
    _same_pair(got, Vector2D(b * t, y), Vector2D(a + (b - a) * t, y), "parallel to the base")


def line_general_last(a: Pos, b: Real, h: Pos, t: Frac):
    assume(a > 1.0 and h > 1.0 and t > 0.1 and t < 0.9)
    y = h * t
    got = _general(2, a, b, h).intersection(Line2D(0.0, 1.0, -y))
    _same_pair(got, Vector2D(b * t, y), Vector2D(a + (b - a) * t, y), "parallel to the base")
