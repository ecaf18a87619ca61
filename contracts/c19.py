"""rectangles and sizes: one consistent representation"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from contracts.lib import same_rect, same_xy, on_line


def size(a: Real, b: Real, c: Real, d: Real):
    s = Size2D(a, b)
    check(close((s.length(), s.width()), (abs(a), abs(b))), "a size keeps the magnitudes")
    check(s.length() >= 0.0 and s.width() >= 0.0, "sizes are not negative")
    check(close(s.diagonal() * s.diagonal(), a * a + b * b), "diagonal")
    check(s.diagonal() >= 0.0, "the diagonal is not negative")
    check(s.is_valid() == (a != 0.0 and b != 0.0), "valid unless a side vanishes")
    s.set_length(c)
    check(close((s.length(), s.width()), (abs(c), abs(b))), "set_length changes the length only")
    s.set_width(d)
    check(close((s.length(), s.width()), (abs(c), abs(d))), "set_width changes the width only")
    s.assign(b, a)
    check(close((s.length(), s.width()), (abs(b), abs(a))), "assign")


def size_default():
    s = Size2D()
    check(close((s.length(), s.width()), (0.0, 0.0)), "the default size is empty")
    check(not s.is_valid(), "the empty size is invalid")


def four_numbers(x: Real, y: Real, a: Real, b: Real):
    r = Rect2D(x, y, a, b)
    same_rect(r, x, y, abs(a), abs(b), "Rect2D(x, y, l, w)")
    check(close((r.size_().length(), r.size_().width()), (abs(a), abs(b))), "size_")


def point_numbers(p: Vec, a: Real, b: Real):
    same_rect(Rect2D(p, a, b), p.x(), p.y(), abs(a), abs(b), "Rect2D(p, l, w)")


def point_size(p: Vec, a: Real, b: Real):
    same_rect(Rect2D(p, Size2D(a, b)), p.x(), p.y(), abs(a), abs(b), "Rect2D(p, size)")


def two_corners(p: Vec, q: Vec):
    r = Rect2D(p, q)
    same_rect(r, min(p.x(), q.x()), min(p.y(), q.y()), abs(p.x() - q.x()), abs(p.y() - q.y()), "Rect2D(p, q)")
    check(close((r.right(), r.bottom()), (max(p.x(), q.x()), max(p.y(), q.y()))), "two corners span the rectangle")


def copy(p: Vec, a: Real, b: Real):
    same_rect(Rect2D(Rect2D(p, a, b)), p.x(), p.y(), abs(a), abs(b), "Rect2D(rect)")


def center_numbers(x: Real, y: Real, a: NonNeg, b: NonNeg):
    r = Rect2D.from_center(x, y, a, b)
    same_xy(r.center(), x, y, "from_center(x, y, l, w): centre")
    check(close((r.size().length(), r.size().width()), (a, b)), "from_center(x, y, l, w): size")


def center_point(p: Vec, a: NonNeg, b: NonNeg):
    r = Rect2D.from_center(p, a, b)
    same_xy(r.center(), p.x(), p.y(), "from_center(p, l, w): centre")
    check(close((r.size().length(), r.size().width()), (a, b)), "from_center(p, l, w): size")


def assign_four(o: Vec, c: Real, d: Real, x: Real, y: Real, a: Real, b: Real):
    r = Rect2D(o, c, d)
    t = r.assign(x, y, a, b)
    check(t is r, "assign returns the rectangle")
    same_rect(r, x, y, abs(a), abs(b), "assign(x, y, l, w)")


def assign_three(o: Vec, c: Real, d: Real, p: Vec, a: Real, b: Real):
    r = Rect2D(o, c, d)
    r.assign(p, a, b)
    same_rect(r, p.x(), p.y(), abs(a), abs(b), "assign(p, l, w)")


def assign_size(o: Vec, c: Real, d: Real, p: Vec, a: Real, b: Real):
    r = Rect2D(o, c, d)
    r.assign(p, Size2D(a, b))
    same_rect(r, p.x(), p.y(), abs(a), abs(b), "assign(p, size)")


def assign_corners(o: Vec, c: Real, d: Real, p: Vec, q: Vec):
    r = Rect2D(o, c, d)
    r.assign(p, q)
    same_rect(r, min(p.x(), q.x()), min(p.y(), q.y()), abs(p.x() - q.x()), abs(p.y() - q.y()), "assign(p, q)")


def assign_rect(o: Vec, c: Real, d: Real, p: Vec, a: Real, b: Real):
    r = Rect2D(o, c, d)
    r.assign(Rect2D(p, a, b))
    same_rect(r, p.x(), p.y(), abs(a), abs(b), "assign(rect)")


def accessors(x: Real, y: Real, a: NonNeg, b: NonNeg):
    r = Rect2D(x, y, a, b)
    same_xy(r.top_left(), x, y, "top_left")
    same_xy(r.top_left_(), x, y, "top_left_")
    same_xy(r.top_right(), x + a, y, "top_right")
    same_xy(r.bottom_left(), x, y + b, "bottom_left")
    same_xy(r.bottom_right(), x + a, y + b, "bottom_right")
    same_xy(r.center(), x + a / 2.0, y + b / 2.0, "center")
    check(close((r.min_x(), r.max_x(), r.min_y(), r.max_y()), (x, x + a, y, y + b)), "min and max")
    check(close(r.area(), a * b), "area")
    check(r.left() <= r.right() and r.top() <= r.bottom(), "edges are in order")
    check(r.is_valid() == (a > 0.0 and b > 0.0), "valid unless a side vanishes")


def edges(x: Real, y: Real, a: Pos, b: Pos):
    r = Rect2D(x, y, a, b)
    on_line(r.left_edge(), r.top_left(), "left edge: top left")
    on_line(r.left_edge(), r.bottom_left(), "left edge: bottom left")
    on_line(r.right_edge(), r.top_right(), "right edge: top right")
    on_line(r.right_edge(), r.bottom_right(), "right edge: bottom right")
    on_line(r.top_edge(), r.top_left(), "top edge: top left")
    on_line(r.top_edge(), r.top_right(), "top edge: top right")
    on_line(r.bottom_edge(), r.bottom_left(), "bottom edge: bottom left")
    on_line(r.bottom_edge(), r.bottom_right(), "bottom edge: bottom right")
    check(r.left_edge().a() != 0.0 and r.right_edge().a() != 0.0, "vertical edges are proper lines")
    check(r.top_edge().b() != 0.0 and r.bottom_edge().b() != 0.0, "horizontal edges are proper lines")


def bad_arguments(p: Vec):
    n = 0
    try:
        Rect2D(p)
        n = 1
    except Exception:
        n = 2
    check(n == 2, "a lone vector is refused")
