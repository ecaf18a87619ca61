"""sectors: representation, containment, area"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.sector_2d import Sector2D
from contracts.lib import same_xy
import math


def _cw(p, q):
    d = q - p
    if d < 0.0:
        return d + 360.0
    return d


def _parts(s, p, r, q, l, e, what):
    same_xy(s.center(), p.x(), p.y(), what + ": centre")
    same_xy(s.center_(), p.x(), p.y(), what + ": centre (reference)")
    check(close((s.radius_min(), s.radius_max()), (r, q)), what + ": radii")
    check(close((s.angle_left_start().degree(), s.angle_right_end().degree()), (l, e)), what + ": angles")
    check(close((s.angle_left_start_().degree(), s.angle_right_end_().degree()), (l, e)), what + ": angles (reference)")


def construct(p: Vec, r: NonNeg, k: NonNeg, l: DegOpen, e: DegOpen):
    _parts(Sector2D(p, r, r + k, AngleDeg(l), AngleDeg(e)), p, r, r + k, l, e, "a sector from angles")
    _parts(Sector2D(p, r, r + k, l, e), p, r, r + k, l, e, "a sector from degrees")


def construct_order(p: Vec, r: NonNeg, q: Real, l: DegOpen, e: DegOpen):
    s = Sector2D(p, r, q, l, e)
    check(close((s.radius_min(), s.radius_max()), (r, max(r, q))), "the outer radius is at least the inner one")


def construct_negative(p: Vec, r: Neg, q: NonNeg, l: DegOpen, e: DegOpen):
    s = Sector2D(p, r, q, l, e)
    check(close((s.radius_min(), s.radius_max()), (0.0, q)), "a negative inner radius becomes 0")


def assign(p: Vec, r: NonNeg, k: NonNeg, l: DegOpen, e: DegOpen, q: Vec, u: NonNeg, v: Real, m: DegOpen, f: DegOpen):
    s = Sector2D(p, r, r + k, l, e)
    s.assign(q, u, v, AngleDeg(m), AngleDeg(f))
    _parts(s, q, u, max(u, v), m, f, "assign")


def assign_numbers(p: Vec, u: NonNeg, v: Real, m: DegOpen, f: DegOpen):
    s = Sector2D(Vector2D(1.0, 2.0), 3.0, 4.0, 5.0, 6.0)
    s.assign(p, u, v, m, f)
    _parts(s, p, u, max(u, v), m, f, "assign from degrees")


def contains(p: Vec, r: NonNeg, k: NonNeg, l: DegOpen, e: DegOpen, d: Pos, a: DegOpen):
    assume(d > 0.001)
    s = Sector2D(p, r, r + k, l, e)
    x = p + Vector2D(d * cosd(a), d * sind(a))
    inside = r <= d and d <= r + k and _cw(l, a) <= _cw(l, e)
    check(s.contains(x) == inside, "contains exactly the points between the radii and the angles")


def contains_radius(p: Vec, r: NonNeg, k: NonNeg, x: Vec, l: Ang, e: Ang):
    s = Sector2D(p, r, r + k, l, e)
    d2 = (x.x() - p.x()) * (x.x() - p.x()) + (x.y() - p.y()) * (x.y() - p.y())
    got = s.contains(x)
    if d2 < r * r or d2 > (r + k) * (r + k):
        check(not got, "no point nearer than the inner or farther than the outer radius is contained")
    else:
        check(got == (x - p).th().is_within(l, e), "between the radii the direction decides")


def area(p: Vec, r: NonNeg, k: NonNeg, l: DegOpen, e: DegOpen):
    s = Sector2D(p, r, r + k, l, e)
    w = _cw(l, e) / 360.0
    check(close(s.area(), math.pi * ((r + k) * (r + k) - r * r) * w), "area of the swept ring")
    check(close(s.get_circumference_min(), 2.0 * math.pi * r * w), "inner arc length")
    check(close(s.get_circumference_max(), 2.0 * math.pi * (r + k) * w), "outer arc length")
    check(s.area() >= 0.0, "the area is not negative")
    check(s.get_circumference_min() >= 0.0 and s.get_circumference_max() >= s.get_circumference_min(),
          "the outer arc is at least as long as the inner one")


def area_additive(p: Vec, r: NonNeg, k: NonNeg, l: DegOpen, e: DegOpen):
    """a sector and the rest of the ring"""
    assume(l != e)
    s = Sector2D(p, r, r + k, l, e)
    t = Sector2D(p, r, r + k, e, l)
    check(close(s.area() + t.area(), math.pi * ((r + k) * (r + k) - r * r)), "a sector and its complement make the ring")
    check(close(s.get_circumference_max() + t.get_circumference_max(), 2.0 * math.pi * (r + k)), "so do the arcs")


def full_turn(p: Vec, r: NonNeg, k: NonNeg, n: Int, l: DegOpen, e: DegOpen):
    """angles are taken modulo 360"""
    s = Sector2D(p, r, r + k, l + 360.0 * n, e)
    t = Sector2D(p, r, r + k, l, e + 360.0 * n)
    check(close(s.angle_left_start().degree(), l), "the start angle modulo 360")
    check(close(t.angle_right_end().degree(), e), "the end angle modulo 360")


def contains_ahead(x: Real, y: Real, r: NonNeg, k: NonNeg, d: Pos):
    """points straight ahead of a half disc, behind and beside it"""
    assume(d > 0.000002)
    s = Sector2D(Vector2D(x, y), r, r + k, -90.0, 90.0)
    check(s.contains(Vector2D(x + d, y)) == (r <= d <= r + k), "ahead: exactly the points between the radii")
    check(not s.contains(Vector2D(x - d, y)), "nothing behind")
    t = Sector2D(Vector2D(x, y), r, r + k, 90.0, -90.0)
    check(t.contains(Vector2D(x - d, y)) == (r <= d <= r + k), "behind: exactly the points between the radii")
    check(not t.contains(Vector2D(x + d, y)), "nothing ahead of the other half")
    u = Sector2D(Vector2D(x, y), r, r + k, 0.0, 180.0)
    check(u.contains(Vector2D(x, y + d)) == (r <= d <= r + k), "upper half: exactly the points between the radii")
    check(not u.contains(Vector2D(x, y - d)), "nothing below the upper half")


def contains_diagonal(x: Real, y: Real, r: NonNeg, k: NonNeg, d: Pos):
    assume(d > 0.000002)
    s = Sector2D(Vector2D(x, y), r, r + k, 0.0, 90.0)
    z = d * d * 2.0
    check(s.contains(Vector2D(x + d, y + d)) == (r * r <= z <= (r + k) * (r + k)), "a quarter: exactly between the radii")
    check(not s.contains(Vector2D(x - d, y + d)), "nothing left of a quarter")
    check(not s.contains(Vector2D(x - d, y - d)), "nothing opposite a quarter")
    check(not s.contains(Vector2D(x + d, y - d)), "nothing below a quarter")


def construct_two_negative(p: Vec, r: Neg, q: Neg, l: DegOpen, e: DegOpen, x: Vec):
    """radii below zero leave no extent"""
    s = Sector2D(p, r, q, l, e)
    check(close((s.radius_min(), s.radius_max()), (0.0, 0.0)), "two negative radii become 0")
    check(close(s.area(), 0.0) and close(s.get_circumference_min(), 0.0) and close(s.get_circumference_max(), 0.0), "no area, no arcs")
    assume(x.dist2(p) > 0.0)
    check(not s.contains(x), "no other point than the centre is contained")


def assign_two_negative(p: Vec, r: Neg, q: Neg, l: DegOpen, e: DegOpen, x: Vec):
    s = Sector2D(Vector2D(1.0, 2.0), 3.0, 4.0, 5.0, 6.0)
    s.assign(p, r, q, l, e)
    check(close((s.radius_min(), s.radius_max()), (0.0, 0.0)), "two negative radii assigned become 0")
    check(close(s.area(), 0.0), "no area")
    assume(x.dist2(p) > 0.0)
    check(not s.contains(x), "no other point than the centre is contained")
