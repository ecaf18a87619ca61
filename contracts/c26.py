"""polygons: containment and clipping"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.polygon_2d import Polygon2D, XLessEqual, XMoreEqual, YLessEqual, YMoreEqual
from pyrusgeom.triangle_2d import Triangle2D
from contracts.lib import same_xy, same_vec


def _rect(o, a, b):
    return [o, Vector2D(o.x() + a, o.y()), Vector2D(o.x() + a, o.y() + b), Vector2D(o.x(), o.y() + b)]


def rectangle_closed(o: Vec, a: Pos, b: Pos, x: Vec):
    u = x.x() - o.x()
    v = x.y() - o.y()
    inside = 0.0 <= u and u <= a and 0.0 <= v and v <= b
    check(Polygon2D(_rect(o, a, b)).contains(x) == inside, "a rectangle contains its points and its outline")


def rectangle_open(o: Vec, a: Pos, b: Pos, x: Vec):
    u = x.x() - o.x()
    v = x.y() - o.y()
    inside = 0.0 < u and u < a and 0.0 < v and v < b
    check(Polygon2D(_rect(o, a, b)).contains(x, False) == inside, "without its outline when not allowed")


def rectangle_reversed(o: Vec, a: Pos, b: Pos, x: Vec):
    u = x.x() - o.x()
    v = x.y() - o.y()
    ps = _rect(o, a, b)
    inside = 0.0 < u and u < a and 0.0 < v and v < b
    check(Polygon2D([ps[2], ps[1], ps[0], ps[3]]).contains(x, False) == inside, "the direction of the vertices does not matter")


def right_triangle(a: Pos, b: Pos, x: Vec):
    ps = [Vector2D(0.0, 0.0), Vector2D(a, 0.0), Vector2D(0.0, b)]
    h = a * b - b * x.x() - a * x.y()
    inside = x.x() >= 0.0 and x.y() >= 0.0 and h >= 0.0
    check(Polygon2D(ps).contains(x) == inside, "a right triangle contains its points and its outline")
    strict = x.x() > 0.0 and x.y() > 0.0 and h > 0.0
    check(Polygon2D(ps).contains(x, False) == strict, "without its outline when not allowed (right triangle)")


def _left(p, q, x, y):
    """twice the area of p, q, (x, y)"""
    return (q[0] - p[0]) * (y - p[1]) - (q[1] - p[1]) * (x - p[0])


def _convex(ps, x, what):
    """a convex polygon, counter-clockwise, with numbers for vertices: any point"""
    strict = True
    closed = True
    for i in range(len(ps)):
        s = _left(ps[i], ps[(i + 1) % len(ps)], x.x(), x.y())
        strict = strict and s > 0.0
        closed = closed and s >= 0.0
    vs = [Vector2D(p[0], p[1]) for p in ps]
    check(Polygon2D(vs).contains(x, False) == strict, what + ": exactly the points inside all edges")
    check(Polygon2D(vs).contains(x) == closed, what + ": and the outline when allowed")


def triangle_up(x: Vec):
    _convex([(0.0, 0.0), (4.0, 0.0), (1.0, 3.0)], x, "a triangle")


def triangle_down(x: Vec):
    _convex([(1.0, -3.0), (4.0, 0.0), (0.0, 0.0)], x, "a triangle pointing down")


def triangle_slanted(x: Vec):
    _convex([(-1.0, -2.0), (5.0, 1.0), (0.0, 2.0)], x, "a slanted triangle")


def diamond(x: Vec):
    _convex([(3.0, 0.0), (0.0, 2.0), (-3.0, 0.0), (0.0, -2.0)], x, "a diamond")


def pentagon(x: Vec):
    _convex([(-2.0, 0.0), (0.0, -1.0), (2.0, 0.0), (1.0, 2.0), (-1.0, 2.0)], x, "a pentagon")


def corner(x: Vec):
    """an L: not convex"""
    u, v = x.x(), x.y()
    vs = [Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(4.0, 1.0), Vector2D(1.0, 1.0), Vector2D(1.0, 3.0), Vector2D(0.0, 3.0)]
    strict = (0.0 < u and u < 4.0 and 0.0 < v and v < 1.0) or (0.0 < u and u < 1.0 and 0.0 < v and v < 3.0)
    closed = (0.0 <= u and u <= 4.0 and 0.0 <= v and v <= 1.0) or (0.0 <= u and u <= 1.0 and 0.0 <= v and v <= 3.0)
    check(Polygon2D(vs).contains(x, False) == strict, "an L-shaped polygon contains the points of its two arms")
    check(Polygon2D(vs).contains(x) == closed, "an L-shaped polygon with its outline")


def notch(x: Vec):
    """a rectangle with a notch from above: a ray crosses several edges"""
    u, v = x.x(), x.y()
    vs = [Vector2D(0.0, 0.0), Vector2D(6.0, 0.0), Vector2D(6.0, 4.0), Vector2D(3.0, 1.0), Vector2D(0.0, 4.0)]
    strict = 0.0 < u and u < 6.0 and 0.0 < v and (v < 4.0 - u or v < u - 2.0)
    check(Polygon2D(vs).contains(x, False) == strict, "a notched polygon contains the points beside the notch")


def outline(a: Pos, b: Pos, t: Frac01):
    """points of the outline of a triangle"""
    p, q, r = Vector2D(0.0, 0.0), Vector2D(a, 0.0), Vector2D(-1.0, b)
    g = Polygon2D([p, q, r])
    for x in (Vector2D(a * t, 0.0), q + (r - q) * t, r * t):
        check(g.contains(x), "points of the outline are contained when allowed")
        check(not g.contains(x, False), "points of the outline are not contained when not allowed")


def corners(p: Vec, q: Vec, r: Vec):
    g = Polygon2D([p, q, r])
    for x in (p, q):
        check(g.contains(Vector2D(x.x(), x.y())), "vertices are contained when allowed")
        check(not g.contains(Vector2D(x.x(), x.y()), False), "vertices are not contained when not allowed")


def outside_box(p: Vec, q: Vec, r: Vec, x: Vec):
    assume((x.x() < p.x() and x.x() < q.x() and x.x() < r.x()) or (x.y() > p.y() and x.y() > q.y() and x.y() > r.y()))
    check(not Polygon2D([p, q, r]).contains(x), "points beside all vertices are not contained")


def single(p: Vec, x: Vec):
    check(Polygon2D([p]).contains(x) == (p.x() == x.x() and p.y() == x.y()), "a one-point polygon contains that point")
    check(not Polygon2D([p]).contains(x, False), "a one-point polygon has no inside")
    check(not Polygon2D([]).contains(x), "an empty polygon contains nothing")


def half_planes(t: Real, x: Vec):
    check(XLessEqual(t)(x) == (x.x() <= t), "XLessEqual")
    check(XMoreEqual(t)(x) == (x.x() >= t), "XMoreEqual")
    check(YLessEqual(t)(x) == (x.y() <= t), "YLessEqual")
    check(YMoreEqual(t)(x) == (x.y() >= t), "YMoreEqual")
    check(close((XLessEqual(t).thr(), XMoreEqual(t).thr(), YLessEqual(t).thr(), YMoreEqual(t).thr()), (t, t, t, t)), "thresholds")


def clip_all_inside(p: Vec, q: Vec, r: Vec, t: Real):
    assume(p.x() <= t and q.x() <= t and r.x() <= t)
    got = Polygon2D.get_line_clipped_polygon(XLessEqual(t), [p, q, r], Line2D(Vector2D(t, 0.0), AngleDeg(90.0)))
    check(len(got) == 3, "clipping keeps a polygon inside: count")
    same_vec(got[0], q, "clipping keeps the vertices inside (second first)")
    same_vec(got[1], r, "clipping keeps the vertices inside (third)")
    same_vec(got[2], p, "clipping keeps the vertices inside (first last)")


def clip_all_outside(p: Vec, q: Vec, r: Vec, t: Real):
    assume(p.x() > t and q.x() > t and r.x() > t)
    got = Polygon2D.get_line_clipped_polygon(XLessEqual(t), [p, q, r], Line2D(Vector2D(t, 0.0), AngleDeg(90.0)))
    check(len(got) == 0, "clipping removes a polygon outside")


def clip_one_outside(p: Vec, q: Vec, r: Vec, t: Real):
    """one vertex beyond the border: its two edges are cut"""
    assume(p.x() < t - 0.0001 and q.x() < t - 0.0001 and r.x() > t + 0.0001)
    got = Polygon2D.get_line_clipped_polygon(XLessEqual(t), [p, q, r], Line2D(Vector2D(t, 0.0), AngleDeg(90.0)))
    check(len(got) == 4, "one vertex outside: four points")
    same_vec(got[0], q, "the first kept vertex")
    check(close(got[1].x(), t) and close(got[2].x(), t), "cut points lie on the border")
    check(close((r.x() - q.x()) * (got[1].y() - q.y()), (r.y() - q.y()) * (t - q.x())), "the first cut point lies on its edge")
    check(close((r.x() - p.x()) * (got[2].y() - p.y()), (r.y() - p.y()) * (t - p.x())), "the second cut point lies on its edge")
    same_vec(got[3], p, "the last kept vertex")


def clip_one_inside(p: Vec, q: Vec, r: Vec, t: Real):
    assume(p.y() < t - 0.0001 and q.y() < t - 0.0001 and r.y() > t + 0.0001)
    got = Polygon2D.get_line_clipped_polygon(YMoreEqual(t), [p, q, r], Line2D(Vector2D(0.0, t), AngleDeg(0.0)))
    check(len(got) == 3, "one vertex inside: three points")
    check(close(got[0].y(), t) and close(got[2].y(), t), "cut points lie on the border (y)")
    check(close((r.y() - q.y()) * (got[0].x() - q.x()), (r.x() - q.x()) * (t - q.y())), "the first cut point lies on its edge (y)")
    same_vec(got[1], r, "the kept vertex")
    check(close((r.y() - p.y()) * (got[2].x() - p.x()), (r.x() - p.x()) * (t - p.y())), "the second cut point lies on its edge (y)")


def clip_rectangle_inside(o: Vec, a: Pos, b: Pos, l: Pos, u: Pos, r: Pos, d: Pos):
    """a rectangle inside the clipping rectangle"""
    ps = _rect(o, a, b)
    box = Rect2D(Vector2D(o.x() - l, o.y() - u), Vector2D(o.x() + a + r, o.y() + b + d))
    got = Polygon2D(ps).get_rectangle_clipped_polygon(box)
    check(len(got.vertices()) == 4, "a polygon inside the rectangle is kept: count")
    check(close(got.area(), a * b), "a polygon inside the rectangle is kept: area")


def clip_rectangle_outside(o: Vec, a: Pos, b: Pos, k: Pos, l: Pos, w: Pos):
    """a rectangle right of, left of or above the clipping rectangle"""
    g = Polygon2D(_rect(o, a, b))
    check(close(g.get_rectangle_clipped_polygon(Rect2D(Vector2D(o.x() - k - l, o.y()), Vector2D(o.x() - k, o.y() + w))).area(), 0.0),
          "nothing is left of a polygon to the right")
    check(close(g.get_rectangle_clipped_polygon(Rect2D(Vector2D(o.x() + a + k, o.y()), Vector2D(o.x() + a + k + l, o.y() + w))).area(), 0.0),
          "nothing is left of a polygon to the left")


def clip_rectangle_sides(o: Vec, a: Pos, b: Pos, l: Pos, r: Pos, k: Pos):
    """the left and right sides are cut off"""
    assume(l > 0.0001 and r > 0.0001)
    g = Polygon2D(_rect(o, l + a + r, b))
    box = Rect2D(Vector2D(o.x() + l, o.y() - k), Vector2D(o.x() + l + a, o.y() + b + k))
    got = g.get_rectangle_clipped_polygon(box)
    check(close(got.area(), a * b), "clipping left and right leaves the part between")


def clip_rectangle_top(o: Vec, a: Pos, b: Pos, l: Pos, r: Pos, k: Pos):
    """the part above the top edge (smaller y) is cut off"""
    assume(l > 0.0001)
    g = Polygon2D(_rect(o, a, l + b))
    box = Rect2D(Vector2D(o.x() - k, o.y() + l), Vector2D(o.x() + a + k, o.y() + l + b + r))
    got = g.get_rectangle_clipped_polygon(box)
    check(close(got.area(), a * b), "clipping the top leaves the part below it")


def clip_rectangle_bottom(o: Vec, a: Pos, b: Pos, l: Pos, r: Pos, k: Pos):
    """the part beyond the bottom edge (larger y) is cut off"""
    assume(r > 0.0001)
    g = Polygon2D(_rect(o, a, b + r))
    box = Rect2D(Vector2D(o.x() - k, o.y() - l), Vector2D(o.x() + a + k, o.y() + b))
    got = g.get_rectangle_clipped_polygon(box)
    check(close(got.area(), a * b), "clipping the bottom leaves the part above it")


def clip_keeps(p: Vec, q: Vec, r: Vec, t: Real):
    """clipping leaves the polygon alone"""
    g = Polygon2D([p, q, r])
    Polygon2D.get_line_clipped_polygon(XLessEqual(t), g.vertices_(), Line2D(Vector2D(t, 0.0), AngleDeg(90.0)))
    vs = g.vertices()
    check(len(vs) == 3, "clipping leaves the polygon alone: count")
    for i in range(3):
        same_vec(vs[i], (p, q, r)[i], "clipping leaves the polygon alone")


def clip_rectangle_point(o: Vec, l: Pos, u: Pos, r: Pos, d: Pos):
    g = Polygon2D([Vector2D(o.x(), o.y())]).get_rectangle_clipped_polygon(Rect2D(o.x() - l, o.y() - u, l + r, u + d)).vertices()
    check(len(g) == 1, "one point inside the rectangle is kept")
    same_xy(g[0], o.x(), o.y(), "one point inside the rectangle")


def clip_rectangle_two(o: Vec, q: Vec, l: Pos, u: Pos, r: Pos, d: Pos):
    k = Rect2D(o.x() - l, o.y() - u, l + r, u + d)
    assume(o.x() - l <= q.x() and q.x() <= o.x() + r and o.y() - u <= q.y() and q.y() <= o.y() + d)
    g = Polygon2D([o, q]).get_rectangle_clipped_polygon(k).vertices()
    check(len(g) == 2, "two points inside the rectangle are kept")
    same_xy(g[0], o.x(), o.y(), "first of two points inside the rectangle")
    same_xy(g[1], q.x(), q.y(), "second of two points inside the rectangle")


_TWELVE = [(10.0, 1.0), (9.0, 5.0), (6.5, 8.0), (3.0, 9.5), (-1.0, 10.0), (-5.5, 8.5), (-8.5, 5.5), (-10.0, 1.5), (-9.5, -3.0),
           (-7.0, -7.0), (-2.0, -9.5), (6.0, -8.0)]


def twelve_row(t: Real):
    _convex(_TWELVE, Vector2D(t, 0.3), "12 vertices, a row")


def twelve_vertex_row(t: Real):
    _convex(_TWELVE, Vector2D(t, 5.0), "12 vertices, the row of a vertex")


def twelve_column(t: Real):
    _convex(_TWELVE, Vector2D(1.3, t), "12 vertices, a column")


def twelve_slanted(t: Real):
    _convex(_TWELVE, Vector2D(-4.0 + 2.0 * t, t), "12 vertices, a slanted line")


def twelve_clipped(t: Unit):
    """the twelve-sided polygon cut at the left of t"""
    got = Polygon2D.get_line_clipped_polygon(XMoreEqual(t), [Vector2D(p[0], p[1]) for p in _TWELVE],
                                             Line2D(Vector2D(t, 0.0), AngleDeg(90.0)))
    kept = [p for p in _TWELVE if p[0] > 1.0]
    n = 0
    for g in got:
        check(g.x() >= t or close(g.x(), t), "12 vertices: nothing beyond the border")
        if g.x() > 1.0:
            n = n + 1
    check(n == len(kept), "12 vertices: the vertices inside are kept")
    for p in kept:
        r = False
        for g in got:
            r = r or (g.x() == p[0] and g.y() == p[1])
        check(r, "12 vertices: each vertex inside is kept")


# many vertices: a parabola of 24 points, convex
def _many():
    return [Vector2D(float(i), float(i * i) / 16.0) for i in range(-12, 12)]


def _many_edges(vs, i):
    g = Polygon2D(vs)
    p = vs[i]
    q = vs[(i + 1) % 24]
    m = Vector2D((p.x() + q.x()) / 2.0, (p.y() + q.y()) / 2.0)
    check(g.contains(m) and not g.contains(m, False), "24 vertices: boundary points as requested")
    check(g.contains(p) and not g.contains(p, False), "24 vertices: corners as requested")
    c = Vector2D(0.0, 5.0)
    i1 = m + (c - m) * 0.03125
    o1 = m - (c - m) * 0.03125
    check(g.contains(i1) and g.contains(i1, False), "24 vertices: points inside any edge")
    check(not g.contains(o1) and not g.contains(o1, False), "24 vertices: points outside any edge")


def many_edge_0():
    _many_edges(_many(), 0)


def many_turned_edge_0():
    _many_edges(_many()[::-1], 0)


def many_edge_8():
    _many_edges(_many(), 8)


def many_turned_edge_8():
    _many_edges(_many()[::-1], 8)


def many_edge_14():
    _many_edges(_many(), 14)


def many_turned_edge_14():
    _many_edges(_many()[::-1], 14)


def many_edge_19():
    _many_edges(_many(), 19)


def many_turned_edge_19():
    _many_edges(_many()[::-1], 19)


def many_edge_22():
    _many_edges(_many(), 22)


def many_turned_edge_22():
    _many_edges(_many()[::-1], 22)


def many_edge_23():
    _many_edges(_many(), 23)


def many_turned_edge_23():
    _many_edges(_many()[::-1], 23)


def many_clipped():
    ps = _many()
    for t in (-10.5, -3.25, 0.5, 6.5, 10.5):
        r = Polygon2D.get_line_clipped_polygon(XLessEqual(t), ps, Line2D(1.0, 0.0, -t))
        inside = [q for q in ps if q.x() <= t]
        check(len(r) == len(inside) + 2, "24 vertices: the vertices inside and two crossings")
        for q in inside:
            check(q in r, "24 vertices: clipping keeps the vertices inside")
        for q in r:
            check(q in inside or close(q.x(), t), "24 vertices: added points are on the border")


def two_vertices(p: Vec, q: Vec, t: Frac):
    """a polygon of two vertices is a segment without interior"""
    o = Polygon2D([p, q])
    z = Vector2D(p.x() + t * (q.x() - p.x()), p.y() + t * (q.y() - p.y()))
    check(o.contains(z), "a point of the segment")
    check(not o.contains(z, False), "a point of the segment is not inside")
    check(o.contains(p) and o.contains(q), "the ends")


def two_vertices_outside():
    for g in ((0.0, 0.0, 6.0, 4.0), (6.0, 4.0, 0.0, 0.0), (0.0, 4.0, 6.0, 0.0), (6.0, 0.0, 0.0, 4.0), (0.0, 1.0, 6.0, 1.0), (2.0, 0.0, 2.0, 4.0)):
        o = Polygon2D([Vector2D(g[0], g[1]), Vector2D(g[2], g[3])])
        for z in (Vector2D(1.0, 3.5), Vector2D(5.0, 0.5), Vector2D(1.0, 0.25), Vector2D(5.5, 3.75), Vector2D(-1.0, 2.0), Vector2D(9.0, 1.0)):
            for on in (True, False):
                check(not o.contains(z, on), "a point off the segment")
