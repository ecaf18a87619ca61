"""angle arithmetic is exact modulo 360"""
from vp import *
from pyrusgeom.angle_deg import AngleDeg


def _cong(p, q, what):
    check(integral((p - q) / 360.0), what)


def construct(d: Real):
    _cong(AngleDeg(d).degree(), d, "AngleDeg(d) is d modulo 360")
    _cong(AngleDeg(af=d).degree(), d, "AngleDeg(af=d) is d modulo 360")
    _cong(AngleDeg(d).degree_(), d, "degree_() is d modulo 360")
    _cong(float(AngleDeg(d)), d, "float(AngleDeg(d)) is d modulo 360")
    _cong(AngleDeg.normalize_angle(d), d, "normalize_angle(d) is d modulo 360")
    check(close(AngleDeg().degree(), 0.0), "AngleDeg() is zero")


def construct_int(k: Int):
    _cong(AngleDeg(k).degree(), k, "AngleDeg(int) is the integer modulo 360")


def already_normal(d: Deg):
    check(close(AngleDeg(d).degree(), d), "a degree in [-180, 180] is kept")
    check(close(AngleDeg(af=d).degree(), d), "a degree in [-180, 180] is kept (af=)")
    check(close(AngleDeg.normalize_angle(d), d), "normalize_angle keeps [-180, 180]")
    check(close(AngleDeg(d).radian() * 180.0, d * 3.141592653589793), "radian() is the degree in radians")
    check(close(AngleDeg(d).abs(), abs(d)), "abs()")
    check(close(AngleDeg(d).get_normalized() * 360.0, d + 180.0), "get_normalized()")


def agree_normalizers(d: Real):
    p = AngleDeg(d).degree()
    q = AngleDeg.normalize_angle(d)
    assume(-180.0 < p and p < 180.0)
    assume(-180.0 < q and q < 180.0)
    check(close(p, q), "normalize_angle agrees with AngleDeg")


def copies(a: Ang, b: Ang, d: Real):
    check(close(AngleDeg(a).degree(), a.degree()), "copy constructor")
    check(close(a.copy().degree(), a.degree()), "copy()")
    check(close(a.degree(), a.degree_()), "degree() and degree_() agree")
    check(close(float(a), a.degree()), "float(a)")
    x = a.degree()
    b.set_angle(a)
    check(close(b.degree(), x), "set_angle")
    b.set_degree(d)
    _cong(b.degree(), d, "set_degree is d modulo 360")
    check(close(b.degree(), AngleDeg(d).degree()), "set_degree agrees with the constructor")
    check(close(a.degree(), x), "the source of set_angle is untouched")


def addition(a: Ang, b: Ang):
    x = a.degree()
    y = b.degree()
    _cong((a + b).degree(), x + y, "angle + angle")
    _cong((a - b).degree(), x - y, "angle - angle")
    _cong((-a).degree(), -x, "-angle")
    check(close((a + b).degree(), (b + a).degree()), "addition commutes")
    check(close(a.degree(), x) and close(b.degree(), y), "operands kept")


def addition_number(a: Ang, d: Real):
    x = a.degree()
    _cong((a + d).degree(), x + d, "angle + float")
    _cong((a - d).degree(), x - d, "angle - float")
    check(close(a.degree(), x), "operand kept")


def addition_int(a: Ang, k: Int):
    x = a.degree()
    _cong((a + k).degree(), x + k, "angle + int")
    _cong((a - k).degree(), x - k, "angle - int")
    _cong((a * k).degree(), x * k, "angle * int")


def scaling(a: Ang, d: Real):
    x = a.degree()
    _cong((a * d).degree(), x * d, "angle * float")
    check(close(a.degree(), x), "operand kept")


def dividing(a: Ang, d: Real):
    assume(d != 0.0)
    x = a.degree()
    c = AngleDeg(a)
    c /= d
    _cong(c.degree(), x / d, "angle /= float")
    check(close(c.degree(), AngleDeg(x / d).degree()), "/= agrees with division of the degree")


def in_place_angle(a: Ang, b: Ang):
    y = b.degree()
    c = AngleDeg(a)
    e = c
    c += b
    check(c is e, "+= keeps the object")
    check(close(c.degree(), (a + b).degree()), "+= angle agrees with +")
    c = AngleDeg(a)
    e = c
    c -= b
    check(c is e, "-= keeps the object")
    check(close(c.degree(), (a - b).degree()), "-= angle agrees with -")
    check(close(b.degree(), y), "right operand kept")


def in_place_number(a: Ang, d: Real):
    c = AngleDeg(a)
    c += d
    check(close(c.degree(), (a + d).degree()), "+= float agrees with +")
    c = AngleDeg(a)
    c -= d
    check(close(c.degree(), (a - d).degree()), "-= float agrees with -")
    c = AngleDeg(a)
    c *= d
    check(close(c.degree(), (a * d).degree()), "*= float agrees with *")


def reversal(a: Ang):
    x = a.degree()
    _cong(a.reverse_angle().degree(), x + 180.0, "reverse_angle is the opposite direction")
    check(close(a.degree(), x), "reverse_angle keeps the angle")
    a.reverse()
    _cong(a.degree(), x + 180.0, "reverse is the opposite direction")
    a.reverse()
    _cong(a.degree(), x, "reversing twice restores the direction")


def sum_difference(a: Ang, b: Ang):
    _cong(((a + b) - b).degree(), a.degree(), "(a + b) - b is a")
    _cong((a - b).degree(), -(b - a).degree(), "a - b is -(b - a)")


def floor_dividing(a: Ang, k: Real):
    """// is documented as floor division and computes the true quotient: either is accepted"""
    assume(k >= 1.0)
    d = a.degree()
    b = a // k
    q = d / k
    check(q - 1.0 < b.degree() and b.degree() <= q, "angle // number is the quotient of the degrees, or its floor")
    check(close(a.degree(), d) and b is not a, "angle // number leaves the angle alone")


def in_place_int(a: Ang, k: Int):
    x = a.degree()
    c = AngleDeg(a)
    c += k
    _cong(c.degree(), x + k, "angle += int")
    c = AngleDeg(a)
    c -= k
    _cong(c.degree(), x - k, "angle -= int")
    c = AngleDeg(a)
    c *= k
    _cong(c.degree(), x * k, "angle *= int")


def whole_numbers():
    for j in (-180, -170, -90, 0, 45, 90, 170, 180):
        for k in (-1000, -3, -2, -1, 1, 2, 3, 4, 7, 360, 1000):
            a = AngleDeg(j)
            x = a.degree()
            _cong((a + k).degree(), x + k, "whole degrees + int")
            _cong((a - k).degree(), x - k, "whole degrees - int")
            _cong((a * k).degree(), x * k, "whole degrees * int")
            _cong((a // k).degree(), x / k, "whole degrees // int")
            a += k
            check(a == AngleDeg(x + k), "whole degrees += int")
            a = AngleDeg(j)
            a -= k
            check(a == AngleDeg(x - k), "whole degrees -= int")
            a = AngleDeg(j)
            a *= k
            check(a == AngleDeg(x * k), "whole degrees *= int")
            a = AngleDeg(j)
            a /= k
            check(a == AngleDeg(x / k), "whole degrees /= int")
