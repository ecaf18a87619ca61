"""angular order relations"""
from vp import *
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.vector_2d import Vector2D


def _cw(p, q):
    """clockwise sweep from p to q, in [0, 360)"""
    d = q - p
    if d < 0.0:
        return d + 360.0
    return d


def left_of(p: DegOpen, q: DegOpen):
    a = AngleDeg(p)
    b = AngleDeg(q)
    s = _cw(p, q)
    check(a.is_left_of(b) == (0.0 < s and s < 180.0), "is_left_of: 0 < sweep < 180")
    check(a.is_left_equal_of(b) == (s < 180.0), "is_left_equal_of: 0 <= sweep < 180")


def right_of(p: DegOpen, q: DegOpen):
    a = AngleDeg(p)
    b = AngleDeg(q)
    s = _cw(q, p)
    check(a.is_right_of(b) == (0.0 < s and s < 180.0), "is_right_of: 0 < sweep < 180")
    check(a.is_right_equal_of(b) == (s < 180.0), "is_right_equal_of: 0 <= sweep < 180")


def converse(a: Ang, b: Ang):
    check(a.is_left_of(b) == b.is_right_of(a), "left and right are converse")
    check(a.is_left_equal_of(b) == b.is_right_equal_of(a), "left-equal and right-equal are converse")
    check(not (a.is_left_of(b) and a.is_right_of(b)), "left and right exclude each other")
    if a.is_left_of(b):
        check(a.is_left_equal_of(b), "left implies left-equal")
    if a.is_right_of(b):
        check(a.is_right_equal_of(b), "right implies right-equal")


def irreflexive(a: Ang):
    check(not a.is_left_of(a) and not a.is_right_of(a), "strict relations are irreflexive")
    check(a.is_left_equal_of(a) and a.is_right_equal_of(a), "equal relations are reflexive")


def number_argument(a: Ang, q: Real):
    b = AngleDeg(q)
    check(a.is_left_of(q) == a.is_left_of(b), "is_left_of(float)")
    check(a.is_right_of(q) == a.is_right_of(b), "is_right_of(float)")
    check(a.is_left_equal_of(q) == a.is_left_equal_of(b), "is_left_equal_of(float)")
    check(a.is_right_equal_of(q) == a.is_right_equal_of(b), "is_right_equal_of(float)")


def within(x: DegOpen, l: DegOpen, r: DegOpen):
    got = AngleDeg(x).is_within(AngleDeg(l), AngleDeg(r))
    check(got == (_cw(l, x) <= _cw(l, r)), "is_within: on the clockwise sweep from left to right")


def within_numbers(x: DegOpen, l: DegOpen, r: DegOpen):
    a = AngleDeg(x)
    w = a.is_within(AngleDeg(l), AngleDeg(r))
    check(a.is_within(l, r) == w, "is_within(float, float)")
    check(a.is_within(AngleDeg(l), r) == w, "is_within(angle, float)")
    check(a.is_within(l, AngleDeg(r)) == w, "is_within(float, angle)")


def within_ends(l: Ang, r: Ang):
    check(l.is_within(l, r), "the left end is within")
    check(r.is_within(l, r), "the right end is within")


def bisect_halves(l: Ang, r: Ang):
    m = AngleDeg.bisect(l, r)
    check(integral((2.0 * m.degree() - l.degree() - r.degree()) / 360.0), "bisect halves the angle")


def bisect_side(p: DegOpen, q: DegOpen):
    assume(p != q)
    assume(p - q != 180.0 and q - p != 180.0)
    m = AngleDeg.bisect(AngleDeg(p), AngleDeg(q))
    check(integral((m.degree() - (q + _cw(q, p) * 0.5)) / 360.0), "bisect is the middle of the sweep from right to left")


def bisect_overloads(p: DegOpen, q: DegOpen):
    m = AngleDeg.bisect(AngleDeg(p), AngleDeg(q))
    check(close(AngleDeg.bisect(p, q).degree(), m.degree()), "bisect(float, float)")


def bisect_keeps(l: Ang, r: Ang):
    x = l.degree()
    y = r.degree()
    AngleDeg.bisect(l, r)
    check(close(l.degree(), x) and close(r.degree(), y), "bisect keeps its arguments")


def bisector_line(o: Vec, l: Ang, r: Ang):
    n = Line2D.angle_bisector(o, l, r)
    m = AngleDeg.bisect(l, r)
    check(close(n.a() * o.x() + n.b() * o.y() + n.c(), 0.0), "angle_bisector passes through the origin")
    check(close(n.a() * m.cos() + n.b() * m.sin(), 0.0), "angle_bisector runs along the bisecting direction")
