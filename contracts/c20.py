"""rectangles: moving and resizing"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from contracts.lib import same_rect, same_xy


def move_center(x: Real, y: Real, a: NonNeg, b: NonNeg, p: Vec):
    r = Rect2D(x, y, a, b)
    r.move_center(p)
    same_xy(r.center(), p.x(), p.y(), "move_center moves the centre there")
    same_rect(r, p.x() - a / 2.0, p.y() - b / 2.0, a, b, "move_center keeps the size")


def move_corners(x: Real, y: Real, a: NonNeg, b: NonNeg, p: Vec):
    r = Rect2D(x, y, a, b)
    r.move_top_left(p)
    same_rect(r, p.x(), p.y(), a, b, "move_top_left")
    r = Rect2D(x, y, a, b)
    r.move_bottom_right(p)
    same_rect(r, p.x() - a, p.y() - b, a, b, "move_bottom_right")


def move_edges(x: Real, y: Real, a: NonNeg, b: NonNeg, k: Real):
    r = Rect2D(x, y, a, b)
    r.move_left(k)
    same_rect(r, k, y, a, b, "move_left")
    r = Rect2D(x, y, a, b)
    r.move_right(k)
    same_rect(r, k - a, y, a, b, "move_right")
    r = Rect2D(x, y, a, b)
    r.move_top(k)
    same_rect(r, x, k, a, b, "move_top")
    r = Rect2D(x, y, a, b)
    r.move_bottom(k)
    same_rect(r, x, k - b, a, b, "move_bottom")


def move_edges_synonyms(x: Real, y: Real, a: NonNeg, b: NonNeg, k: Real):
    r = Rect2D(x, y, a, b)
    r.move_min_x(k)
    same_rect(r, k, y, a, b, "move_min_x")
    r = Rect2D(x, y, a, b)
    r.move_max_x(k)
    same_rect(r, k - a, y, a, b, "move_max_x")
    r = Rect2D(x, y, a, b)
    r.move_min_y(k)
    same_rect(r, x, k, a, b, "move_min_y")
    r = Rect2D(x, y, a, b)
    r.move_max_y(k)
    same_rect(r, x, k - b, a, b, "move_max_y")


def spans(r, x0, y0, x1, y1, what):
    """the rectangle with the two given opposite corners"""
    same_rect(r, min(x0, x1), min(y0, y1), abs(x1 - x0), abs(y1 - y0), what)


def set_edges(x: Real, y: Real, a: NonNeg, b: NonNeg, k: Real):
    r = Rect2D(x, y, a, b)
    r.set_left(k)
    spans(r, k, y, x + a, y + b, "set_left")
    r = Rect2D(x, y, a, b)
    r.set_right(k)
    spans(r, x, y, k, y + b, "set_right")
    r = Rect2D(x, y, a, b)
    r.set_top(k)
    spans(r, x, k, x + a, y + b, "set_top")
    r = Rect2D(x, y, a, b)
    r.set_bottom(k)
    spans(r, x, y, x + a, k, "set_bottom")


def set_edges_synonyms(x: Real, y: Real, a: NonNeg, b: NonNeg, k: Real):
    r = Rect2D(x, y, a, b)
    r.set_min_x(k)
    spans(r, k, y, x + a, y + b, "set_min_x")
    r = Rect2D(x, y, a, b)
    r.set_max_x(k)
    spans(r, x, y, k, y + b, "set_max_x")
    r = Rect2D(x, y, a, b)
    r.set_min_y(k)
    spans(r, x, k, x + a, y + b, "set_min_y")
    r = Rect2D(x, y, a, b)
    r.set_max_y(k)
    spans(r, x, y, x + a, k, "set_max_y")


def set_top_left(x: Real, y: Real, a: NonNeg, b: NonNeg, p: Vec):
    r = Rect2D(x, y, a, b)
    t = r.set_top_left(p)
    check(t is r, "set_top_left returns the rectangle")
    spans(r, p.x(), p.y(), x + a, y + b, "set_top_left(p)")
    r = Rect2D(x, y, a, b)
    r.set_top_left(p.x(), p.y())
    spans(r, p.x(), p.y(), x + a, y + b, "set_top_left(x, y)")


def set_bottom_right(x: Real, y: Real, a: NonNeg, b: NonNeg, p: Vec):
    r = Rect2D(x, y, a, b)
    t = r.set_bottom_right(p)
    check(t is r, "set_bottom_right returns the rectangle")
    spans(r, x, y, p.x(), p.y(), "set_bottom_right(p)")
    r = Rect2D(x, y, a, b)
    r.set_bottom_right(p.x(), p.y())
    spans(r, x, y, p.x(), p.y(), "set_bottom_right(x, y)")


def set_size(x: Real, y: Real, a: NonNeg, b: NonNeg, c: Real, d: Real):
    r = Rect2D(x, y, a, b)
    r.set_length(c)
    same_rect(r, x, y, abs(c), b, "set_length")
    r.set_width(d)
    same_rect(r, x, y, abs(c), abs(d), "set_width")
    r.set_size(d, c)
    same_rect(r, x, y, abs(d), abs(c), "set_size(l, w)")
    r.set_size(Size2D(c, d))
    same_rect(r, x, y, abs(c), abs(d), "set_size(size)")
