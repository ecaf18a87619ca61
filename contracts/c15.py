"""segments: construction and metrics"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.segment_2d import Segment2D
from contracts.lib import same_vec, same_xy, same_ang


def construct(p: Vec, q: Vec):
    s = Segment2D(p, q)
    same_vec(s.origin(), p, "origin()")
    same_vec(s.terminal(), q, "terminal()")
    same_vec(s.origin_(), p, "origin_()")
    same_vec(s.terminal_(), q, "terminal_()")
    n = Segment2D(p.x(), p.y(), q.x(), q.y())
    same_vec(n.origin(), p, "four numbers: origin")
    same_vec(n.terminal(), q, "four numbers: terminal")
    c = s.copy()
    same_vec(c.origin(), p, "copy origin")
    same_vec(c.terminal(), q, "copy terminal")
    e = Segment2D()
    same_xy(e.origin(), 0.0, 0.0, "Segment2D() origin")
    same_xy(e.terminal(), 0.0, 0.0, "Segment2D() terminal")


def construct_polar(p: Vec, k: Real, a: Ang):
    s = Segment2D(p, k, a)
    same_vec(s.origin(), p, "origin of a polar segment")
    same_xy(s.terminal(), p.x() + k * a.cos(), p.y() + k * a.sin(), "terminal of a polar segment")


def construct_polar_number(p: Vec, k: Real, d: Real):
    s = Segment2D(p, k, d)
    same_vec(s.origin(), p, "origin of a polar segment")
    same_xy(s.terminal(), p.x() + k * cosd(d), p.y() + k * sind(d), "terminal of a polar segment")


def assign_points(p: Vec, q: Vec, o: Vec):
    s = Segment2D(o, p)
    s.assign(p, q)
    same_vec(s.origin(), p, "assign origin")
    same_vec(s.terminal(), q, "assign terminal")
    s.assign(q.x(), q.y(), o.x(), o.y())
    same_vec(s.origin(), q, "assign numbers: origin")
    same_vec(s.terminal(), o, "assign numbers: terminal")
    s.assign()
    same_xy(s.origin(), 0.0, 0.0, "assign() origin")
    same_xy(s.terminal(), 0.0, 0.0, "assign() terminal")


def assign_polar(p: Vec, k: Real, a: Ang):
    s = Segment2D()
    s.assign(p, k, a)
    same_vec(s.origin(), p, "assign polar: origin")
    same_xy(s.terminal(), p.x() + k * a.cos(), p.y() + k * a.sin(), "assign polar: terminal")


def length_direction(p: Vec, q: Vec):
    s = Segment2D(p, q)
    check(close(s.length(), p.dist(q)), "length is the distance of the ends")
    check(s.length() >= 0.0, "length is non-negative")
    same_ang(s.direction(), (q - p).th(), "direction runs from origin to terminal")


def validity(p: Vec, q: Vec):
    s = Segment2D(p, q)
    check(s.is_valid() == (not p.equals_weakly(q)), "valid unless the ends coincide")
    check(s.is_valid() == Segment2D(q, p).is_valid(), "validity does not depend on the direction")


def swapping(p: Vec, q: Vec):
    s = Segment2D(p, q)
    r = s.reversed_segment()
    same_vec(r.origin(), q, "reversed_segment origin")
    same_vec(r.terminal(), p, "reversed_segment terminal")
    same_vec(s.origin(), p, "reversed_segment keeps the origin")
    same_vec(s.terminal(), q, "reversed_segment keeps the terminal")
    check(s.swap() is s, "swap returns the segment")
    same_vec(s.origin(), q, "swap origin")
    same_vec(s.terminal(), p, "swap terminal")
    check(s.reverse() is s, "reverse returns the segment")
    same_vec(s.origin(), p, "reverse origin")
    same_vec(s.terminal(), q, "reverse terminal")


def nearest(p: Vec, q: Vec, x: Vec, t: Frac01):
    """no point of the segment is nearer than nearest_point"""
    s = Segment2D(p, q)
    n = s.nearest_point(x)
    w = q - p
    ip = w.inner_product(x - p)
    if w.r2() == 0.0 or ip <= 0.0:
        same_xy(n, p.x(), p.y(), "before the origin: the origin")
    elif ip >= w.r2():
        same_xy(n, q.x(), q.y(), "beyond the terminal: the terminal")
    else:
        check(close((n - p).outer_product(w), 0.0), "nearest point is on the segment's line")
        check(close((x - n).inner_product(w), 0.0), "nearest point is the foot of the perpendicular")


def distance_point(p: Vec, q: Vec, x: Vec):
    s = Segment2D(p, q)
    d = s.dist(x)
    w = q - p
    ip = w.inner_product(x - p)
    check(d >= 0.0, "dist is non-negative")
    if w.r2() == 0.0 or ip <= 0.0:
        check(close(d * d, p.dist2(x)), "before the origin: distance to the origin")
    elif ip >= w.r2():
        check(close(d * d, q.dist2(x)), "beyond the terminal: distance to the terminal")
    else:
        o = w.outer_product(x - p)
        check(close(d * d * w.r2(), o * o), "beside the segment: distance to its line")


def distance_nearest(p: Vec, q: Vec, x: Vec):
    s = Segment2D(p, q)
    d = s.dist(x)
    check(close(d * d, s.nearest_point(x).dist2(x)), "dist is the distance to the nearest point")


def distance_reversed(p: Vec, q: Vec, x: Vec):
    d = Segment2D(p, q).dist(x)
    e = Segment2D(q, p).dist(x)
    check(close(d * d, e * e), "dist does not depend on the direction")


def farthest(p: Vec, q: Vec, x: Vec):
    f = Segment2D(p, q).farthest_dist(x)
    check(f >= 0.0, "farthest_dist is non-negative")
    check(f * f >= p.dist2(x), "farthest_dist is at least the distance to the origin")
    check(f * f >= q.dist2(x), "farthest_dist is at least the distance to the terminal")
    check(close(f * f, p.dist2(x)) or close(f * f, q.dist2(x)), "farthest_dist is attained at an end")


def projection_inside(p: Vec, q: Vec, x: Vec):
    w = q - p
    assume(w.r2() > 0.000000000004)
    ip = w.inner_product(x - p)
    s = Segment2D(p, q)
    n = s.projection(x)
    if 0.0 <= ip and ip <= w.r2():
        check(n.is_valid(), "a point beside the segment has a projection")
        check(close((n - p).outer_product(w), 0.0), "the projection is on the line")
        check(close((x - n).inner_product(w), 0.0), "the projection is the foot of the perpendicular")


def projection_outside(p: Vec, a: Ang, k: Pos, t: Real, h: Real):
    """a segment of length k in direction a, a point t along it and h beside it"""
    assume(k > 0.000002)
    q = Vector2D(p.x() + k * a.cos(), p.y() + k * a.sin())
    x = Vector2D(p.x() + t * a.cos() - h * a.sin(), p.y() + t * a.sin() + h * a.cos())
    n = Segment2D(p, q).projection(x)
    if t < -0.000002 or t > k + 0.000002:
        check(not n.is_valid(), "a point past the ends has no projection")
    if 0.0 <= t and t <= k:
        check(n.is_valid(), "a point beside the segment has a projection")
        same_xy(n, p.x() + t * a.cos(), p.y() + t * a.sin(), "the projection is the foot")


def projection_point(p: Vec, x: Vec):
    same_xy(Segment2D(p, p).projection(x), p.x(), p.y(), "the projection onto a single point")


def equality(p: Vec, q: Vec, r: Vec, t: Vec):
    s = Segment2D(p, q)
    u = Segment2D(r, t)
    same = p.x() == r.x() and p.y() == r.y() and q.x() == t.x() and q.y() == t.y()
    check((s == u) == same, "segments are equal when both ends are")
    check(s.equals_weakly(u) == (p.equals_weakly(r) and q.equals_weakly(t)), "weak equality of both ends")


# two segments

def _between(s, t, d2, what):
    for u in (s, s.reversed_segment()):
        for v in (t, t.reversed_segment()):
            for d in (u.dist(v), v.dist(u)):
                check(d >= 0.0 and close(d * d, d2), what)


def segments_upright(a: Pos, b: Pos, h: Pos, k: Pos):
    """one segment stands above the inside of the other"""
    s = Segment2D(Vector2D(-a, 0.0), Vector2D(b, 0.0))
    _between(s, Segment2D(Vector2D(0.0, h), Vector2D(0.0, h + k)), h * h, "an upright segment over another")
    _between(s, Segment2D(Vector2D(0.0, -h), Vector2D(0.0, -h - k)), h * h, "an upright segment below another")


def segments_slanted(h: Pos, k: Pos):
    s = Segment2D(Vector2D(-3.0, 0.0), Vector2D(2.0, 0.0))
    _between(s, Segment2D(Vector2D(0.0, h), Vector2D(1.0, h + k)), h * h, "a slanted segment over another")


def segments_in_line(a: Pos, g: Pos, b: Pos):
    s = Segment2D(Vector2D(0.0, 0.0), Vector2D(a, 0.0))
    _between(s, Segment2D(Vector2D(a + g, 0.0), Vector2D(a + g + b, 0.0)), g * g, "segments in one line, apart")


def segments_in_column(a: Pos, g: Pos, b: Pos):
    s = Segment2D(Vector2D(0.0, 0.0), Vector2D(0.0, a))
    _between(s, Segment2D(Vector2D(0.0, a + g), Vector2D(0.0, a + g + b)), g * g, "segments in one column, apart")


def segments_crossing(a: Pos, b: Pos, c: Pos, d: Pos):
    s = Segment2D(Vector2D(-a, 0.0), Vector2D(b, 0.0))
    _between(s, Segment2D(Vector2D(0.0, -c), Vector2D(0.0, d)), 0.0, "segments that cross")


def segments_point(a: Pos, x: Vec):
    """a single point as a segment"""
    s = Segment2D(Vector2D(0.0, 0.0), Vector2D(a, 0.0))
    d = s.dist(Segment2D(x, x))
    e = s.dist(x)
    check(close(d, e) or close(d * d, e * e), "the distance to a segment that is a point")


def segments_corner(a: Pos, b: Pos, g: Pos, h: Pos):
    """the corners face each other"""
    s = Segment2D(Vector2D(-a, -b), Vector2D(0.0, 0.0))
    _between(s, Segment2D(Vector2D(g, h), Vector2D(g + b, h + a)), g * g + h * h, "segments end to end")


def projection_level(x: Real, y: Real, k: Pos, t: Real, h: Real):
    assume(k > 0.000002)
    assume(t < -0.000002 or 0.0 <= t)
    assume(t <= k or t > k + 0.000002)
    n = Segment2D(Vector2D(x, y), Vector2D(x + k, y)).projection(Vector2D(x + t, y + h))
    if 0.0 <= t <= k:
        check(n.is_valid(), "a point beside a level segment has a projection")
        same_xy(n, x + t, y, "the projection onto a level segment")
    else:
        check(not n.is_valid(), "a point past the ends of a level segment has none")


def projection_upright(x: Real, y: Real, k: Pos, t: Real, h: Real):
    assume(k > 0.000002)
    assume(t < -0.000002 or 0.0 <= t)
    assume(t <= k or t > k + 0.000002)
    n = Segment2D(Vector2D(x, y), Vector2D(x, y - k)).projection(Vector2D(x + h, y - t))
    if 0.0 <= t <= k:
        check(n.is_valid(), "a point beside an upright segment has a projection")
        same_xy(n, x, y - t, "the projection onto an upright segment")
    else:
        check(not n.is_valid(), "a point past the ends of an upright segment has none")
