"""helpers shared by the contracts"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg


def same_vec(v, w, what):
    check(close((v.x(), v.y()), (w.x(), w.y())), what)
    check(v.is_valid() == w.is_valid(), what + " (validity)")


def same_xy(v, x, y, what):
    check(close((v.x(), v.y()), (x, y)), what)


def same_ang(a, b, what):
    check(close(a.degree(), b.degree()), what)


def same_line(n, m, what):
    """the two lines have the same coefficients"""
    check(close((n.a(), n.b(), n.c()), (m.a(), m.b(), m.c())), what)


def on_line(n, p, what):
    check(close(n.a() * p.x() + n.b() * p.y() + n.c(), 0.0), what)


def far(v, w):
    """the points differ by more than the library's tolerance in x or y"""
    return abs(v.x() - w.x()) > 0.00001 or abs(v.y() - w.y()) > 0.00001


def same_rect(r, left, top, length, width, what):
    """every accessor of a rectangle describes the same rectangle"""
    check(close((r.left(), r.top()), (left, top)), what + ": top left")
    check(close((r.size().length(), r.size().width()), (length, width)), what + ": size")
    check(close((r.right(), r.bottom()), (left + length, top + width)), what + ": bottom right")


def rect_of(p, a, b):
    """a rectangle with top left corner p, length a, width b"""
    from pyrusgeom.rect_2d import Rect2D
    return Rect2D(p.x(), p.y(), a, b)
