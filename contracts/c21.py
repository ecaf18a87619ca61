"""rectangles: containment, intersection, union"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.rect_2d import Rect2D
from contracts.lib import same_rect, same_xy, on_line


def contains(x: Real, y: Real, a: NonNeg, b: NonNeg, p: Vec, e: NonNeg):
    r = Rect2D(x, y, a, b)
    check(r.contains(p) == (x <= p.x() and p.x() <= x + a and y <= p.y() and p.y() <= y + b),
          "contains exactly the points between the edges")
    check(r.contains_almost(p, e) == (x - e <= p.x() and p.x() <= x + a + e and y - e <= p.y()
                                      and p.y() <= y + b + e),
          "contains_almost widens every side by the tolerance")


def corners_contained(x: Real, y: Real, a: NonNeg, b: NonNeg):
    r = Rect2D(x, y, a, b)
    check(r.contains(r.top_left()), "top left corner is contained")
    check(r.contains(r.top_right()), "top right corner is contained")
    check(r.contains(r.bottom_left()), "bottom left corner is contained")
    check(r.contains(r.bottom_right()), "bottom right corner is contained")
    check(r.contains(r.center()), "the centre is contained")


def intersected(p: Vec, a: Pos, b: Pos, q: Vec, c: Pos, d: Pos, x: Vec):
    r = Rect2D(p, a, b)
    s = Rect2D(q, c, d)
    left = max(p.x(), q.x())
    right = min(p.x() + a, q.x() + c)
    top = max(p.y(), q.y())
    bottom = min(p.y() + b, q.y() + d)
    t = r.intersected(s)
    if left < right and top < bottom:
        check(close((t.left(), t.right(), t.top(), t.bottom()), (left, right, top, bottom)),
              "the intersection of overlapping rectangles is their common part")
    else:
        check(not t.is_valid(), "the intersection of disjoint rectangles is empty")
        check(close(t.area(), 0.0), "the intersection of disjoint rectangles has no area")


def united(p: Vec, a: Pos, b: Pos, q: Vec, c: Pos, d: Pos):
    t = Rect2D(p, a, b).united(Rect2D(q, c, d))
    check(close((t.left(), t.right(), t.top(), t.bottom()),
                (min(p.x(), q.x()), max(p.x() + a, q.x() + c), min(p.y(), q.y()), max(p.y() + b, q.y() + d))),
          "the union is the smallest rectangle containing both")
    u = Rect2D(q, c, d).united(Rect2D(p, a, b))
    check(close((t.left(), t.right(), t.top(), t.bottom()), (u.left(), u.right(), u.top(), u.bottom())),
          "union is symmetric")


def invalid_operands(p: Vec, a: NonNeg, q: Vec, c: Pos, d: Pos):
    check(not Rect2D(p, a, 0.0).intersected(Rect2D(q, c, d)).is_valid(), "intersecting an empty rectangle gives an empty one")
    check(not Rect2D(q, c, d).intersected(Rect2D(p, 0.0, a)).is_valid(), "intersecting with an empty rectangle gives an empty one")
    check(not Rect2D(p, a, 0.0).united(Rect2D(q, c, d)).is_valid(), "uniting an empty rectangle gives an empty one")
    check(not Rect2D(q, c, d).united(Rect2D(p, 0.0, a)).is_valid(), "uniting with an empty rectangle gives an empty one")


def on_border(r, s, what):
    check(close((s.x() - r.left()) * (s.x() - r.right()) * (s.y() - r.top()) * (s.y() - r.bottom()), 0.0),
          what + ": the point is on an edge line")
    check(r.contains(s), what + ": the point is in the rectangle")


def horizontal_line(x: Real, y: Real, a: Pos, b: Pos, k: Real):
    """lines y = k"""
    assume(a > 0.01)
    assume(b > 0.01)
    r = Rect2D(x, y, a, b)
    s = r.intersection(Line2D(Vector2D(0.0, k), Vector2D(1.0, k)))
    if y <= k and k <= y + b:
        check(len(s) == 2, "a horizontal line through the rectangle meets it twice")
        check(close((s[0].y(), s[1].y()), (k, k)), "both points are on the line")
        check(close((s[0].x(), s[1].x()), (x, x + a)), "the points are on the left and the right edge")
    else:
        check(len(s) == 0, "a horizontal line above or below does not meet the rectangle")


def vertical_line(x: Real, y: Real, a: Pos, b: Pos, k: Real):
    assume(a > 0.01)
    assume(b > 0.01)
    r = Rect2D(x, y, a, b)
    s = r.intersection(Line2D(Vector2D(k, 0.0), Vector2D(k, 1.0)))
    if x <= k and k <= x + a:
        check(len(s) == 2, "a vertical line through the rectangle meets it twice")
        check(close((s[0].x(), s[1].x()), (k, k)), "both points are on the line")
        check(close((s[0].y(), s[1].y()), (y, y + b)), "the points are on the top and the bottom edge")
    else:
        check(len(s) == 0, "a vertical line beside does not meet the rectangle")


def line_points(a: Pos, b: Pos, c: Real, d: Real, e: Real):
    """any line d x + e y + c = 0 and a rectangle at the origin"""
    assume(a > 0.01)
    assume(b > 0.01)
    assume(abs(d) > 0.001)
    assume(abs(e) > 0.001)
    r = Rect2D(0.0, 0.0, a, b)
    n = Line2D(d, e, c)
    s = r.intersection(n)
    check(len(s) <= 2, "at most two points")
    if len(s) > 0:
        on_line(n, s[0], "first point: on the line")
        on_border(r, s[0], "first point")
    if len(s) > 1:
        on_line(n, s[1], "second point: on the line")
        on_border(r, s[1], "second point")


def line_count(a: Pos, b: Pos, c: Real, d: Real, e: Real):
    """a line separating the corners meets the rectangle, another one does not"""
    assume(a > 0.01)
    assume(b > 0.01)
    assume(abs(d) > 0.001)
    assume(abs(e) > 0.001)
    f0 = c
    f1 = d * a + c
    f2 = e * b + c
    f3 = d * a + e * b + c
    s = Rect2D(0.0, 0.0, a, b).intersection(Line2D(d, e, c))
    if (f0 > 0.0 and f1 > 0.0 and f2 > 0.0 and f3 > 0.0) or (f0 < 0.0 and f1 < 0.0 and f2 < 0.0 and f3 < 0.0):
        check(len(s) == 0, "a line with all corners on one side misses the rectangle")
    if f0 < 0.0 and f3 > 0.0:
        check(len(s) > 0, "a line between opposite corners meets the rectangle")
    if f1 < 0.0 and f2 > 0.0:
        check(len(s) > 0, "a line between the other corners meets the rectangle")


def horizontal_segment(x: Real, y: Real, a: Pos, b: Pos, h: Frac01, p: Real, q: Real):
    """a horizontal segment at the height h*b"""
    assume(a > 0.01)
    assume(b > 0.01)
    assume(abs(p - q) > 0.01)
    assume(abs(p) > 0.01)
    assume(abs(q) > 0.01)
    assume(abs(p - a) > 0.01)
    assume(abs(q - a) > 0.01)
    k = y + h * b
    r = Rect2D(x, y, a, b)
    s = r.intersection(Segment2D(Vector2D(x + p, k), Vector2D(x + q, k)))
    lo = min(p, q)
    hi = max(p, q)
    n = 0
    if lo < 0.0 and 0.0 < hi:
        n = n + 1
    if lo < a and a < hi:
        n = n + 1
    check(len(s) == n, "a horizontal segment meets the edges it crosses")
    if len(s) == 1:
        check(close(s[0].y(), k), "the point is on the segment")
        check(close((s[0].x() - x) * (s[0].x() - x - a), 0.0), "the point is on an edge")


def ray_right(x: Real, y: Real, a: Pos, b: Pos, h: Frac01, p: Real):
    """a ray to the right"""
    assume(a > 0.01)
    assume(b > 0.01)
    assume(abs(p) > 0.01)
    assume(abs(p - a) > 0.01)
    k = y + h * b
    s = Rect2D(x, y, a, b).intersection(Ray2D(Vector2D(x + p, k), 0.0))
    if p < 0.0:
        check(len(s) == 2, "a ray from the left crosses twice")
    if 0.0 < p and p < a:
        check(len(s) == 1, "a ray from inside crosses once")
        check(close((s[0].x(), s[0].y()), (x + a, k)), "at the right edge")
    if p > a:
        check(len(s) == 0, "a ray leading away does not cross")


def ray_left(x: Real, y: Real, a: Pos, b: Pos, h: Frac01, p: Real):
    assume(a > 0.01)
    assume(b > 0.01)
    assume(abs(p) > 0.01)
    assume(abs(p - a) > 0.01)
    k = y + h * b
    s = Rect2D(x, y, a, b).intersection(Ray2D(Vector2D(x + p, k), 180.0))
    if p < 0.0:
        check(len(s) == 0, "a ray leading away to the left does not cross")
    if 0.0 < p and p < a:
        check(len(s) == 1, "a ray from inside to the left crosses once")
        check(close((s[0].x(), s[0].y()), (x, k)), "at the left edge")
    if p > a:
        check(len(s) == 2, "a ray from the right crosses twice")


def _crossing(x, y, a, b, p, q, what):
    """the line through p and q, two points of different edges"""
    s = Rect2D(x, y, a, b).intersection(Line2D(p, q))
    check(len(s) == 2, what + ": two points")
    if len(s) == 2:
        first = close((s[0].x(), s[0].y()), (p.x(), p.y())) and close((s[1].x(), s[1].y()), (q.x(), q.y()))
        second = close((s[0].x(), s[0].y()), (q.x(), q.y())) and close((s[1].x(), s[1].y()), (p.x(), p.y()))
        check(first or second, what + ": exactly the points of the edges")


def crosses_left_right(x: Real, y: Real, a: Pos, b: Pos, g: Frac01, h: Frac01):
    assume(a > 0.01)
    assume(b > 0.01)
    _crossing(x, y, a, b, Vector2D(x, y + (0.01 + 0.98 * g) * b), Vector2D(x + a, y + (0.01 + 0.98 * h) * b), "left and right")


def crosses_left_top(x: Real, y: Real, a: Pos, b: Pos, g: Frac01, h: Frac01):
    assume(a > 0.01)
    assume(b > 0.01)
    _crossing(x, y, a, b, Vector2D(x, y + (0.01 + 0.98 * g) * b), Vector2D(x + (0.01 + 0.98 * h) * a, y), "left and top")


def crosses_left_bottom(x: Real, y: Real, a: Pos, b: Pos, g: Frac01, h: Frac01):
    assume(a > 0.01)
    assume(b > 0.01)
    _crossing(x, y, a, b, Vector2D(x, y + (0.01 + 0.98 * g) * b), Vector2D(x + (0.01 + 0.98 * h) * a, y + b), "left and bottom")


def crosses_right_top(x: Real, y: Real, a: Pos, b: Pos, g: Frac01, h: Frac01):
    assume(a > 0.01)
    assume(b > 0.01)
    _crossing(x, y, a, b, Vector2D(x + a, y + (0.01 + 0.98 * g) * b), Vector2D(x + (0.01 + 0.98 * h) * a, y), "right and top")


def crosses_right_bottom(x: Real, y: Real, a: Pos, b: Pos, g: Frac01, h: Frac01):
    assume(a > 0.01)
    assume(b > 0.01)
    _crossing(x, y, a, b, Vector2D(x + a, y + (0.01 + 0.98 * g) * b), Vector2D(x + (0.01 + 0.98 * h) * a, y + b), "right and bottom")


def crosses_top_bottom(x: Real, y: Real, a: Pos, b: Pos, g: Frac01, h: Frac01):
    assume(a > 0.01)
    assume(b > 0.01)
    _crossing(x, y, a, b, Vector2D(x + (0.01 + 0.98 * g) * a, y), Vector2D(x + (0.01 + 0.98 * h) * a, y + b), "top and bottom")


def _part(a, b, p, q, s, t, what):
    """the part of the line through the edge points p and q between its parameters s and t (p at 0, q at 1)"""
    assume(abs(s - t) > 0.01)
    assume(abs(s) > 0.01)
    assume(abs(t) > 0.01)
    assume(abs(s - 1.0) > 0.01)
    assume(abs(t - 1.0) > 0.01)
    dx = q.x() - p.x()
    dy = q.y() - p.y()
    v = Vector2D(p.x() + s * dx, p.y() + s * dy)
    w = Vector2D(p.x() + t * dx, p.y() + t * dy)
    n = Rect2D(0.0, 0.0, a, b).intersection(Segment2D(v, w))
    lo = min(s, t)
    hi = max(s, t)
    k = (1 if lo < 0.0 and 0.0 < hi else 0) + (1 if lo < 1.0 and 1.0 < hi else 0)
    check(len(n) == k, what + ": a segment meets the edges it crosses")
    for z in n:
        first = close((z.x(), z.y()), (p.x(), p.y()))
        second = close((z.x(), z.y()), (q.x(), q.y()))
        check(first or second, what + ": at the points of the edges")


def segment_left_top(a: Pos, b: Pos, s: Real, t: Real):
    assume(a > 1.0)
    assume(b > 1.0)
    _part(a, b, Vector2D(0.0, 0.5 * b), Vector2D(0.25 * a, 0.0), s, t, "left and top")


def segment_right_bottom(a: Pos, b: Pos, s: Real, t: Real):
    assume(a > 1.0)
    assume(b > 1.0)
    _part(a, b, Vector2D(a, 0.25 * b), Vector2D(0.5 * a, b), s, t, "right and bottom")


def segment_left_bottom(a: Pos, b: Pos, s: Real, t: Real):
    assume(a > 1.0)
    assume(b > 1.0)
    _part(a, b, Vector2D(0.5 * a, b), Vector2D(0.0, 0.25 * b), s, t, "left and bottom")


def segment_right_top(a: Pos, b: Pos, s: Real, t: Real):
    assume(a > 1.0)
    assume(b > 1.0)
    _part(a, b, Vector2D(0.75 * a, 0.0), Vector2D(a, 0.5 * b), s, t, "right and top")


def segment_top_bottom(a: Pos, b: Pos, g: Frac01, h: Frac01, s: Real, t: Real):
    assume(a > 0.01)
    assume(b > 0.01)
    _part(a, b, Vector2D((0.01 + 0.98 * g) * a, 0.0), Vector2D((0.01 + 0.98 * h) * a, b), s, t, "top and bottom")


def _ray(a, b, p, q, s, what):
    """the ray on the line through the edge points p and q that starts at its parameter s (p at 0, q at 1)"""
    assume(abs(s) > 0.01)
    assume(abs(s - 1.0) > 0.01)
    dx = q.x() - p.x()
    dy = q.y() - p.y()
    v = Vector2D(p.x() + s * dx, p.y() + s * dy)
    w = Vector2D(p.x() + s * dx + dx, p.y() + s * dy + dy)
    n = Rect2D(0.0, 0.0, a, b).intersection(Ray2D(v, w))
    k = (1 if s < 0.0 else 0) + (1 if s < 1.0 else 0)
    check(len(n) == k, what + ": a ray meets the edges ahead of it")
    for z in n:
        first = close((z.x(), z.y()), (p.x(), p.y()))
        second = close((z.x(), z.y()), (q.x(), q.y()))
        check(first or second, what + ": a ray meets the edges at their points")


def ray_left_top(a: Pos, s: Real):
    assume(a > 1.0)
    b = 2.0
    _ray(a, b, Vector2D(0.0, 0.5 * b), Vector2D(0.25 * a, 0.0), s, "left and top")


def ray_right_bottom(a: Pos, s: Real):
    assume(a > 1.0)
    b = 2.0
    _ray(a, b, Vector2D(a, 0.25 * b), Vector2D(0.5 * a, b), s, "right and bottom")


def ray_bottom_left(a: Pos, s: Real):
    assume(a > 1.0)
    b = 2.0
    _ray(a, b, Vector2D(0.5 * a, b), Vector2D(0.0, 0.25 * b), s, "bottom and left")
