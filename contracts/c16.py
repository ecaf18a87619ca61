"""segments: containment and intersection predicates"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.line_2d import Line2D
from pyrusgeom.segment_2d import Segment2D
from contracts.lib import same_vec, same_xy


def on_segment_inside(p: Vec, u: Vec, t: Frac01):
    q = p + u
    s = Segment2D(p, q)
    x = p + u * t
    check(s.on_segment(x), "a point between the ends is on the segment")
    check(s.contains(x), "a point between the ends is contained")
    check(s.on_segment(p), "the origin is on the segment")
    check(s.on_segment(q), "the terminal is on the segment")


def on_segment_collinear(p: Vec, u: Vec, t: Real):
    assume(u.r2() > 0.0)
    s = Segment2D(p, p + u)
    x = p + u * t
    check(s.on_segment(x) == (0.0 <= t and t <= 1.0), "collinear points are on the segment between the ends only")


def on_segment_beside(p: Vec, q: Vec, x: Vec):
    o = (q - p).outer_product(x - p)
    if o != 0.0:
        check(not Segment2D(p, q).on_segment(x), "a point beside the line is not on the segment")
    check((not Segment2D(p, q).on_segment(x)) == (not Segment2D(q, p).on_segment(x)),
          "on_segment does not depend on the direction")


def on_segment_weakly(p: Vec, u: Vec, t: Frac01):
    assume(u.r2() > 0.000001)
    check(Segment2D(p, p + u).on_segment_weakly(p + u * t), "a point between the ends is weakly on the segment")


def contains_outside(p: Vec, u: Vec, t: Real):
    assume(u.x() * u.x() > 0.000001)
    assume(t < -0.01 or t > 1.01)
    check(not Segment2D(p, p + u).contains(p + u * t), "a point past the ends is not contained (x)")


def contains_outside_y(p: Vec, u: Vec, t: Real):
    assume(u.y() * u.y() > 0.000001)
    assume(t < -0.01 or t > 1.01)
    check(not Segment2D(p, p + u).contains(p + u * t), "a point past the ends is not contained (y)")


def common_point(x: Vec, u: Vec, v: Vec, a: Pos, b: Pos, c: Pos, d: Pos):
    """two segments with a common inner point intersect, parallel or not"""
    s = Segment2D(x - u * a, x + u * b)
    t = Segment2D(x - v * c, x + v * d)
    check(s.exist_intersection(t), "segments with a common inner point intersect")


def common_end(x: Vec, u: Vec, v: Vec, c: Pos, d: Pos):
    """an end of one segment inside the other"""
    s = Segment2D(x, x + u)
    t = Segment2D(x - v * c, x + v * d)
    check(s.exist_intersection(t), "segments touching with the origin intersect")
    check(t.exist_intersection(s), "segments touched by an origin intersect")
    check(s.reversed_segment().exist_intersection(t), "segments touching with the terminal intersect")
    check(t.exist_intersection(s.reversed_segment()), "segments touched by a terminal intersect")


def common_ends(x: Vec, u: Vec, v: Vec):
    s = Segment2D(x, x + u)
    t = Segment2D(x, x + v)
    check(s.exist_intersection(t), "segments with a common origin intersect")
    check(s.exist_intersection(t.reversed_segment()), "segments with a common end intersect")


def point_segment(x: Vec, p: Vec, u: Vec):
    """a segment of one point"""
    s = Segment2D(x, x)
    t = Segment2D(p, p + u)
    check(s.exist_intersection(t) == t.exist_intersection(s), "intersection with a one-point segment is symmetric")
    if u.outer_product(x - p) != 0.0:
        check(not s.exist_intersection(t), "a point beside the segment does not intersect it")
    if x.x() == p.x() and x.y() == p.y():
        check(s.exist_intersection(t), "the end of the segment intersects it")


def point_points(x: Vec, y: Vec):
    check(Segment2D(x, x).exist_intersection(Segment2D(y, y)) == (x.x() == y.x() and x.y() == y.y()),
          "one-point segments intersect when the points are equal")


def _cross(p, u, v, s, t):
    """do p + [0,1]u and a segment along v meet, whose line meets p's line at parameter s, its own parameter there being t"""
    x = p + u * s
    return Segment2D(p, p + u).exist_intersection(Segment2D(x - v * t, x + v * (1.0 - t)))


def crossing_inside(p: Vec, u: Vec, v: Vec, s: Frac01, t: Frac01):
    assume(u.x() * v.y() - u.y() * v.x() != 0.0)
    check(_cross(p, u, v, s, t), "crossing segments intersect")


def crossing_before(p: Vec, u: Vec, v: Vec, s: Neg, t: Real):
    assume(u.x() * v.y() - u.y() * v.x() != 0.0)
    check(not _cross(p, u, v, s, t), "a segment crossing the line before the origin does not intersect")


def crossing_after(p: Vec, u: Vec, v: Vec, s: Real, t: Real):
    assume(u.x() * v.y() - u.y() * v.x() != 0.0)
    assume(s > 1.0)
    check(not _cross(p, u, v, s, t), "a segment crossing the line after the terminal does not intersect")


def crossing_short(p: Vec, u: Vec, v: Vec, s: Real, t: Real):
    assume(u.x() * v.y() - u.y() * v.x() != 0.0)
    assume(t < 0.0 or t > 1.0)
    check(not _cross(p, u, v, s, t), "a segment not reaching the line does not intersect")


def crossing_strict(p: Vec, u: Vec, v: Vec, s: Real, t: Real):
    assume(u.x() * v.y() - u.y() * v.x() != 0.0)
    x = p + u * s
    a = Segment2D(p, p + u)
    b = Segment2D(x - v * t, x + v * (1.0 - t))
    strict = 0.0 < s and s < 1.0 and 0.0 < t and t < 1.0
    check(a.exist_intersection_except_endpoint(b) == strict, "except_endpoint: crossings inside both only")
    check(a.intersects_except_endpoint(b) == strict, "intersects_except_endpoint agrees")


def parallel(p: Vec, u: Vec, k: Real, q: Vec):
    """parallel segments on different lines do not intersect"""
    assume(u.outer_product(q - p) != 0.0)
    a = Segment2D(p, p + u)
    b = Segment2D(q, q + u * k)
    check(not a.exist_intersection(b), "parallel segments do not intersect")
    check(not a.exist_intersection_except_endpoint(b), "parallel segments do not intersect (except endpoint)")


def collinear(p: Vec, u: Vec, s: Real, t: Real):
    assume(u.r2() > 0.0)
    a = Segment2D(p, p + u)
    b = Segment2D(p + u * s, p + u * t)
    overlap = (s >= 0.0 or t >= 0.0) and (s <= 1.0 or t <= 1.0)
    check(a.exist_intersection(b) == overlap, "collinear segments intersect when they overlap")


def symmetric(p: Vec, q: Vec, r: Vec, t: Vec):
    a = Segment2D(p, q)
    b = Segment2D(r, t)
    check(a.exist_intersection_except_endpoint(b) == b.exist_intersection_except_endpoint(a),
          "except_endpoint is symmetric")


def with_line(p: Vec, q: Vec, a: Real, b: Real, c: Real):
    e = a * p.x() + b * p.y() + c
    f = a * q.x() + b * q.y() + c
    n = Line2D(a, b, c)
    same_side = (e > 0.0 and f > 0.0) or (e < 0.0 and f < 0.0)
    check(Segment2D(p, q).exist_intersection(n) == (not same_side), "a line meets the segment unless both ends are on one side")


def line_crossing(p: Vec, u: Vec, v: Vec, s: Real):
    """the point where a line crosses the segment"""
    cr = u.x() * v.y() - u.y() * v.x()
    assume(abs(cr) > 0.000002)
    x = p + u * s
    r = Segment2D(p, p + u).intersection(Line2D(x, x + v))
    if 0.0 <= s and s <= 1.0:
        check(r.is_valid(), "a line across the segment intersects it")
    if r.is_valid():
        same_xy(r, x.x(), x.y(), "the intersection is the crossing")


def line_past(p: Vec, u: Vec, v: Vec, s: Real):
    cr = u.x() * v.y() - u.y() * v.x()
    assume(abs(cr) > 0.000002)
    assume(u.x() * u.x() > 0.000001 or u.y() * u.y() > 0.000001)
    assume(s < -0.01 or s > 1.01)
    x = p + u * s
    check(not Segment2D(p, p + u).intersection(Line2D(x, x + v)).is_valid(), "a line past the ends is not met")


def line_parallel(p: Vec, u: Vec, q: Vec):
    check(not Segment2D(p, p + u).intersection(Line2D(q, q + u)).is_valid(), "a parallel line is not met")


def segment_crossing(p: Vec, u: Vec, v: Vec, s: Real, t: Real):
    cr = u.x() * v.y() - u.y() * v.x()
    assume(abs(cr) > 0.000002)
    x = p + u * s
    a = Segment2D(p, p + u)
    b = Segment2D(x - v * t, x + v * (1.0 - t))
    r = a.intersection(b)
    if 0.0 < s and s < 1.0 and 0.0 < t and t < 1.0:
        check(r.is_valid(), "segments crossing inside intersect")
    else:
        check(not r.is_valid(), "end points do not count by default")
    if r.is_valid():
        same_xy(r, x.x(), x.y(), "the intersection is the crossing")


def segment_crossing_ends(p: Vec, u: Vec, v: Vec, s: Real, t: Real):
    cr = u.x() * v.y() - u.y() * v.x()
    assume(abs(cr) > 0.000002)
    x = p + u * s
    a = Segment2D(p, p + u)
    b = Segment2D(x - v * t, x + v * (1.0 - t))
    r = a.intersection(b, True)
    if 0.0 <= s and s <= 1.0 and 0.0 <= t and t <= 1.0:
        check(r.is_valid(), "end points count when allowed")
    if r.is_valid():
        same_xy(r, x.x(), x.y(), "the intersection is the crossing")


def segment_distance_touch(x: Vec, u: Vec, v: Vec):
    """segments with a common end"""
    s = Segment2D(x, x + u)
    t = Segment2D(x, x + v)
    check(close(s.dist(t), 0.0), "the distance of segments with a common point is 0")


def segment_distance_parallel(a: Pos, h: Pos, p: Real, q: Real):
    """a horizontal segment from the origin and a parallel one at the height h"""
    s = Segment2D(Vector2D(0.0, 0.0), Vector2D(a, 0.0))
    t = Segment2D(Vector2D(p, h), Vector2D(q, h))
    d = s.dist(t)
    lo = min(p, q)
    hi = max(p, q)
    if lo <= a and hi >= 0.0:
        check(close(d, h), "parallel segments side by side: the distance of the lines")
    if lo > a:
        check(close(d * d, (lo - a) * (lo - a) + h * h), "a parallel segment to the right")
    if hi < 0.0:
        check(close(d * d, hi * hi + h * h), "a parallel segment to the left")
    check(close(d, t.dist(s)), "the distance is symmetric")


def segment_distance_perpendicular(a: Pos, p: Real, h: Pos, k: Pos):
    """a vertical segment above a horizontal one"""
    s = Segment2D(Vector2D(0.0, 0.0), Vector2D(a, 0.0))
    t = Segment2D(Vector2D(p, h), Vector2D(p, h + k))
    d = s.dist(t)
    if 0.0 <= p and p <= a:
        check(close(d, h), "a vertical segment above: its lower end counts")
    if p > a:
        check(close(d * d, (p - a) * (p - a) + h * h), "a vertical segment to the right")
    if p < 0.0:
        check(close(d * d, p * p + h * h), "a vertical segment to the left")
