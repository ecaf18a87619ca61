"""angles stay in [-180, 180]"""
from vp import *
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.sector_2d import Sector2D


def _in(d, what):
    check(-180.0 <= d, what + ": degree >= -180")
    check(d <= 180.0, what + ": degree <= 180")


def _rng(a, what):
    check(isinstance(a, AngleDeg), what + " is an AngleDeg")
    _in(a.degree(), what)
    _in(a.degree_(), what + " (reference accessor)")


def construct(d: Real):
    _rng(AngleDeg(d), "AngleDeg(float)")
    _rng(AngleDeg(af=d), "AngleDeg(af=float)")
    _rng(AngleDeg(AngleDeg(d)), "AngleDeg(AngleDeg)")
    _rng(AngleDeg(d).copy(), "copy()")
    _rng(AngleDeg(), "AngleDeg()")


def construct_int(k: Int):
    _rng(AngleDeg(k), "AngleDeg(int)")
    _rng(AngleDeg(af=k), "AngleDeg(af=int)")


def setters(a: Ang, d: Real, b: Ang):
    a.set_degree(d)
    _rng(a, "set_degree")
    a.set_angle(b)
    _rng(a, "set_angle")


def setters_int(a: Ang, k: Int):
    a.set_degree(k)
    _rng(a, "set_degree(int)")


def add_sub(a: Ang, b: Ang, d: Real):
    _rng(a + b, "angle + angle")
    _rng(a + d, "angle + float")
    _rng(a - b, "angle - angle")
    _rng(a - d, "angle - float")
    _rng(-a, "-angle")


def scale(a: Ang, d: Real):
    _rng(a * d, "angle * float")


def divide(a: Ang, e: Real):
    assume(e != 0.0)
    d = 1.0 / e
    _rng(a // d, "angle // float")
    a /= d
    _rng(a, "angle /= float")


def in_place(a: Ang, b: Ang, d: Real):
    c = AngleDeg(a)
    c += b
    _rng(c, "angle += angle")
    c = AngleDeg(a)
    c += d
    _rng(c, "angle += float")
    c = AngleDeg(a)
    c -= b
    _rng(c, "angle -= angle")
    c = AngleDeg(a)
    c -= d
    _rng(c, "angle -= float")
    c = AngleDeg(a)
    c *= d
    _rng(c, "angle *= float")


def reverse(a: Ang):
    _rng(a.reverse_angle(), "reverse_angle")
    a.reverse()
    _rng(a, "reverse")
    a.reverse()
    _rng(a, "reverse twice")


def bisect(a: Ang, b: Ang):
    _rng(AngleDeg.bisect(a, b), "bisect")


def bisect_float(p: Real, q: Real):
    _rng(AngleDeg.bisect(p, q), "bisect(float, float)")


def normalize_static(d: Real):
    _in(AngleDeg.normalize_angle(d), "normalize_angle")


def derived(a: Ang):
    check(0.0 <= a.abs() and a.abs() <= 180.0, "abs() in [0, 180]")
    check(0.0 <= a.get_normalized() and a.get_normalized() <= 1.0, "get_normalized() in [0, 1]")


def directions(v: Vec, w: Vec):
    _rng(v.th(), "Vector2D.th")
    _rng(v.dir(), "Vector2D.dir")
    _rng(Segment2D(v, w).direction(), "Segment2D.direction")
    _rng(Ray2D(v, w).dir(), "Ray2D(point, point).dir")
    _rng(Ray2D(v, w).dir_(), "Ray2D(point, point).dir_")


def directions_from_number(v: Vec, d: Real, e: Real):
    _rng(Ray2D(v, d).dir(), "Ray2D(point, float).dir")
    s = Sector2D(v, 1.0, 2.0, d, e)
    _rng(s.angle_left_start(), "Sector2D start")
    _rng(s.angle_right_end(), "Sector2D end")
    s.assign(v, 1.0, 2.0, e, d)
    _rng(s.angle_left_start(), "Sector2D.assign start")
    _rng(s.angle_right_end(), "Sector2D.assign end")


def chain(a: Ang, b: Ang, d: Real, e: Real):
    a += d
    a -= b
    a += e
    _rng(a, "a sequence of updates")


def radian(a: Ang):
    check(close(a.radian() * 180.0, a.degree() * AngleDeg.deg2rad(180.0)), "radian() is the radian value of the degree")
    check(close(a.abs(), abs(a.degree())), "abs() is the absolute value of the degree")
    check(close(float(a), a.degree()), "float() is the degree")


def radian_ends():
    for d in (-180.0, 180.0, -180, 180, 0, -90.0, 90, 540.0, -540, 360, -360.0, 179.75, -179.75):
        a = AngleDeg(d)
        check(close(a.radian() * 180.0, a.degree() * AngleDeg.deg2rad(180.0)), "radian() is the radian value of the degree")
        check(close(a.abs(), abs(a.degree())), "abs() is the absolute value of the degree")


def in_place_int(a: Ang, k: Int):
    c = AngleDeg(a)
    c += k
    _rng(c, "angle += int")
    c = AngleDeg(a)
    c -= k
    _rng(c, "angle -= int")
    c = AngleDeg(a)
    c *= k
    _rng(c, "angle *= int")


def whole(j: Int, k: Int):
    a = AngleDeg(j)
    _rng(a + k, "whole degrees + int")
    _rng(a - k, "whole degrees - int")
    _rng(a * k, "whole degrees * int")


def whole_numbers():
    for j in (-180, -170, -90, 0, 45, 90, 170, 180):
        for k in (-1000, -3, -2, -1, 1, 2, 3, 4, 7, 360, 1000):
            a = AngleDeg(j)
            _rng(a + k, "whole degrees + int")
            _rng(a - k, "whole degrees - int")
            _rng(a * k, "whole degrees * int")
            _rng(a // k, "whole degrees // int")
            a += k
            _rng(a, "whole degrees += int")
            a *= k
            _rng(a, "whole degrees *= int")
            a -= k
            _rng(a, "whole degrees -= int")
            a /= k
            _rng(a, "whole degrees /= int")
            a.reverse()
            _rng(a, "whole degrees reversed")
