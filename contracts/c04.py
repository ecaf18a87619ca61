"""trigonometry in degrees"""
from vp import *
from pyrusgeom.angle_deg import AngleDeg


def methods(a: Ang):
    d = a.degree()
    check(close(a.cos(), cosd(d)), "cos()")
    check(close(a.sin(), sind(d)), "sin()")
    check(close(a.cos() * a.cos() + a.sin() * a.sin(), 1.0), "cos^2 + sin^2 = 1")


def tangent(a: Ang):
    assume(a.cos() != 0.0)
    check(close(a.tan() * a.cos(), a.sin()), "tan() = sin()/cos()")


def statics(d: Real):
    check(close(AngleDeg.cos_deg(d), cosd(d)), "cos_deg")
    check(close(AngleDeg.sin_deg(d), sind(d)), "sin_deg")


def static_tangent(d: Real):
    assume(AngleDeg.cos_deg(d) != 0.0)
    check(close(AngleDeg.tan_deg(d) * AngleDeg.cos_deg(d), AngleDeg.sin_deg(d)), "tan_deg")


def statics_agree(d: Real):
    a = AngleDeg(d)
    check(close(a.cos(), AngleDeg.cos_deg(d)), "cos() agrees with cos_deg modulo 360")
    check(close(a.sin(), AngleDeg.sin_deg(d)), "sin() agrees with sin_deg modulo 360")


def conversion(d: Real):
    check(close(AngleDeg.rad2deg(AngleDeg.deg2rad(d)), d), "rad2deg(deg2rad(d)) = d")
    check(close(AngleDeg.deg2rad(AngleDeg.rad2deg(d)), d), "deg2rad(rad2deg(r)) = r")
    check(close(AngleDeg.deg2rad(d) * 180.0, d * 3.141592653589793), "deg2rad scale")


def _clamp(c):
    if c > 1.0:
        return 1.0
    if c < -1.0:
        return -1.0
    return c


def arc_cosine(c: Real):
    d = AngleDeg.acos_deg(c)
    check(0.0 <= d and d <= 180.0, "acos_deg in [0, 180]")
    check(close(AngleDeg.cos_deg(d), _clamp(c)), "cos_deg(acos_deg(c)) = c, clamped to [-1, 1]")


def arc_sine(c: Real):
    d = AngleDeg.asin_deg(c)
    check(-90.0 <= d and d <= 90.0, "asin_deg in [-90, 90]")
    check(close(AngleDeg.sin_deg(d), _clamp(c)), "sin_deg(asin_deg(s)) = s, clamped to [-1, 1]")


def arc_tangent(t: Real):
    d = AngleDeg.atan_deg(t)
    check(-90.0 <= d and d <= 90.0, "atan_deg in [-90, 90]")
    check(close(AngleDeg.sin_deg(d), t * AngleDeg.cos_deg(d)), "tan_deg(atan_deg(t)) = t")


def arc_tangent2(y: Real, x: Real):
    d = AngleDeg.atan2_deg(y, x)
    check(-180.0 <= d and d <= 180.0, "atan2_deg in [-180, 180]")
    if abs(x) < 0.000001 and abs(y) < 0.000001:
        check(close(d, 0.0), "atan2_deg of a near-zero vector is 0")
    else:
        c = AngleDeg.cos_deg(d)
        s = AngleDeg.sin_deg(d)
        check(close(x * s, y * c), "atan2_deg is parallel to (x, y)")
        check(x * c + y * s > 0.0, "atan2_deg points along (x, y)")


def arc_integers(k: Int):
    d = AngleDeg.acos_deg(k)
    check(close(AngleDeg.cos_deg(d), _clamp(k)), "acos_deg(int)")
    d = AngleDeg.asin_deg(k)
    check(close(AngleDeg.sin_deg(d), _clamp(k)), "asin_deg(int)")


def signs(y: Pos, x: Real):
    check(AngleDeg.atan2_deg(y, x) >= 0.0, "positive y gives a non-negative direction")
    check(AngleDeg.atan2_deg(-y, x) <= 0.0, "negative y gives a non-positive direction")


def steep():
    """angles near the poles of the tangent, and everywhere else"""
    for d in (89.0, 89.9, 89.99, 89.999, -89.0, -89.9, -89.99, -89.999, 90.001, 90.01, 91.0, -90.01, -91.0, 0.0, 0.01, -0.01, 45.0, 135.0,
              -135.0, 179.99, -179.99, 180.0, -180.0):
        a = AngleDeg(d)
        for t in (a.tan(), AngleDeg.tan_deg(d)):
            check(close(t * cosd(d), sind(d)), "the tangent of an angle, however steep")
        check(close(a.cos(), cosd(d)) and close(AngleDeg.cos_deg(d), cosd(d)), "the cosine of an angle")
        check(close(a.sin(), sind(d)) and close(AngleDeg.sin_deg(d), sind(d)), "the sine of an angle")
        check(close(AngleDeg.atan2_deg(sind(d), cosd(d)) % 360.0, d % 360.0) or d == 0.0, "the direction of an angle")
