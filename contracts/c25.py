"""polygons: vertices, area, orientation, bounding box, distance"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from contracts.lib import same_xy, same_vec


def _cross(p, q):
    return p.x() * q.y() - q.x() * p.y()


def _shoelace(ps):
    s = 0.0
    for i in range(len(ps)):
        s = s + _cross(ps[i], ps[(i + 1) % len(ps)])
    return s


def _area(ps, what):
    s = _shoelace(ps)
    g = Polygon2D(ps)
    check(close(g.double_signed_area(), s), what + ": signed double area is the shoelace sum")
    check(close(g.area(), abs(s) / 2.0), what + ": area is half its absolute value")
    check(g.area() >= 0.0, what + ": area is not negative")
    check(g.is_counter_clockwise() == (s > 0.0), what + ": counter-clockwise when positive")
    check(g.is_clockwise() == (s < 0.0), what + ": clockwise when negative")


def area3(p: Vec, q: Vec, r: Vec):
    _area([p, q, r], "3 vertices")
    check(close(Polygon2D([p, q, r]).double_signed_area(), Triangle2D(p, q, r).double_signed_area()), "triangle and polygon agree")
    check(close(Polygon2D(p, q, r).area(), Triangle2D(p, q, r).area()), "triangle and polygon areas agree")


def area4(p: Vec, q: Vec, r: Vec, s: Vec):
    _area([p, q, r, s], "4 vertices")


def area5(p: Vec, q: Vec, r: Vec, s: Vec, t: Vec):
    _area([p, q, r, s, t], "5 vertices")


def area6(p: Vec, q: Vec, r: Vec, s: Vec, t: Vec, u: Vec):
    _area([p, q, r, s, t, u], "6 vertices")


def area_rotation(p: Vec, q: Vec, r: Vec, s: Vec):
    a = Polygon2D([p, q, r, s])
    b = Polygon2D([q, r, s, p])
    c = Polygon2D([s, r, q, p])
    check(close(a.double_signed_area(), b.double_signed_area()), "the first vertex does not matter")
    check(close(a.double_signed_area(), -c.double_signed_area()), "reversing the vertices negates")
    check(close(a.area(), c.area()), "the area does not depend on the direction")


def area_translation(p: Vec, q: Vec, r: Vec, s: Vec, d: Vec):
    a = Polygon2D([p, q, r, s])
    b = Polygon2D([p + d, q + d, r + d, s + d])
    check(close(a.double_signed_area(), b.double_signed_area()), "translation does not change the area")


def area_small(p: Vec, q: Vec):
    for g in (Polygon2D(), Polygon2D([p]), Polygon2D([p, q])):
        check(close(g.double_signed_area(), 0.0), "no area with fewer than 3 vertices")
        check(close(g.area(), 0.0), "no area (absolute)")
        check(not g.is_clockwise() and not g.is_counter_clockwise(), "no orientation")


def vertices(p: Vec, q: Vec, r: Vec):
    for g in (Polygon2D([p, q, r]), Polygon2D(p, q, r), Polygon2D().assign([p, q, r])):
        vs = g.vertices()
        ws = g.vertices_()
        check(len(vs) == 3 and len(ws) == 3, "all vertices are kept")
        for i in range(3):
            e = (p, q, r)[i]
            same_vec(vs[i], e, "vertices are kept in order")
            same_vec(ws[i], e, "vertices are kept in order (reference)")


def vertices_add(p: Vec, q: Vec, r: Vec):
    g = Polygon2D([p, q])
    g.add_vertex(r)
    vs = g.vertices()
    check(len(vs) == 3, "add_vertex adds one vertex")
    same_vec(vs[0], p, "add_vertex keeps the first")
    same_vec(vs[1], q, "add_vertex keeps the second")
    same_vec(vs[2], r, "add_vertex adds at the end")


def vertices_clear(p: Vec, q: Vec, r: Vec):
    g = Polygon2D([p, q, r])
    g.clear()
    check(len(g.vertices()) == len(Polygon2D().vertices()), "a cleared polygon is a default polygon")
    check(close(g.area(), 0.0), "a cleared polygon has no area")


def assign_empty(p: Vec, q: Vec, r: Vec):
    g = Polygon2D([p, q, r])
    h = g.assign([q, r])
    check(h is g, "assign returns the polygon")
    check(len(g.vertices()) == 2, "assign replaces the vertices")
    same_vec(g.vertices()[0], q, "assign replaces the first vertex")


def box3(p: Vec, q: Vec, r: Vec):
    b = Polygon2D([p, q, r]).get_bounding_box()
    check(close((b.left(), b.right()), (min(p.x(), q.x(), r.x()), max(p.x(), q.x(), r.x()))), "bounding box in x")
    check(close((b.top(), b.bottom()), (min(p.y(), q.y(), r.y()), max(p.y(), q.y(), r.y()))), "bounding box in y")


def box4(p: Vec, q: Vec, r: Vec, s: Vec):
    b = Polygon2D([p, q, r, s]).get_bounding_box()
    check(close(b.left(), min(p.x(), q.x(), r.x(), s.x())), "bounding box: left of 4")
    check(close(b.right(), max(p.x(), q.x(), r.x(), s.x())), "bounding box: right of 4")


def box4_y(p: Vec, q: Vec, r: Vec, s: Vec):
    b = Polygon2D([p, q, r, s]).get_bounding_box()
    check(close(b.top(), min(p.y(), q.y(), r.y(), s.y())), "bounding box: top of 4")
    check(close(b.bottom(), max(p.y(), q.y(), r.y(), s.y())), "bounding box: bottom of 4")


def box_center(p: Vec, q: Vec):
    g = Polygon2D([p, q])
    same_xy(g.bounding_box_center(), (p.x() + q.x()) / 2.0, (p.y() + q.y()) / 2.0, "centre of the bounding box")
    b = Polygon2D([p]).get_bounding_box()
    check(close((b.left(), b.top(), b.right(), b.bottom()), (p.x(), p.y(), p.x(), p.y())), "bounding box of one point")


def box_empty():
    b = Polygon2D([]).get_bounding_box()
    check(close(b.area(), 0.0), "the bounding box of an empty polygon is empty")
    check(close((b.left(), b.top(), b.right(), b.bottom()), (0.0, 0.0, 0.0, 0.0)), "and at the origin")


def distance_point(p: Vec, x: Vec):
    check(close(Polygon2D([p]).dist(x), p.dist(x)), "distance to a one-point polygon")
    check(close(Polygon2D([p]).dist(x, False), p.dist(x)), "distance to a one-point polyline")


def distance_two(a: Pos, x: Vec):
    """two vertices on the x axis"""
    p = Vector2D(0.0, 0.0)
    q = Vector2D(a, 0.0)
    check(close(Polygon2D([p, q]).dist(x, False), Segment2D(p, q).dist(x)), "distance to a two-point polyline")


def distance_slanted(t: Frac01, h: Pos):
    """a point off the slanted edge of a right triangle"""
    a, b = 4.0, 3.0
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(a, 0.0), Vector2D(0.0, b)])
    x = Vector2D(a * (1.0 - t) + h * b, b * t + h * a)
    d = g.dist(x, False)
    check(close(d * d, h * h * (a * a + b * b)), "distance to the slanted edge")


def distance_corner(a: Pos, b: Pos, u: NonNeg, v: NonNeg):
    """a point beyond a corner"""
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(a, 0.0), Vector2D(a, b), Vector2D(0.0, b)])
    d = g.dist(Vector2D(-u, -v), False)
    check(close(d * d, u * u + v * v), "distance to the first corner")
    d = g.dist(Vector2D(a + u, b + v), False)
    check(close(d * d, u * u + v * v), "distance to the opposite corner")


def distance_above(a: Pos, b: Pos, t: Frac01, h: Pos):
    """points straight beside the edges of a rectangle"""
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(a, 0.0), Vector2D(a, b), Vector2D(0.0, b)])
    for plane in (True, False):
        check(close(g.dist(Vector2D(t * a, -h), plane), h), "distance below the rectangle")
        check(close(g.dist(Vector2D(t * a, b + h), plane), h), "distance above the rectangle")
        check(close(g.dist(Vector2D(-h, t * b), plane), h), "distance left of the rectangle")
        check(close(g.dist(Vector2D(a + h, t * b), plane), h), "distance right of the rectangle")


def distance_inside(a: Pos, b: Pos, s: Frac, t: Frac):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(a, 0.0), Vector2D(a, b), Vector2D(0.0, b)])
    x = Vector2D(s * a, t * b)
    check(close(g.dist(x), 0.0), "the distance of an inner point is 0")
    check(close(g.dist(x, False), min(s * a, a - s * a, t * b, b - t * b)), "as a polyline: the nearest edge")


def distance_outline(t: Frac01, c: Real):
    """points of the outline of a triangle with a base on the axis"""
    p, q, r = Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(c, 2.0)
    g = Polygon2D([p, q, r])
    check(close(g.dist(q + (r - q) * t, False), 0.0), "the distance of a point of the outline is 0")
    check(close(g.dist(r * t, False), 0.0), "the closing edge belongs to the outline")
    check(close(g.dist(q * t, False), 0.0), "the first edge belongs to the outline")


# convex, counter-clockwise, no two edges parallel
_TWELVE = [(10.0, 1.0), (9.0, 5.0), (6.5, 8.0), (3.0, 9.5), (-1.0, 10.0), (-5.5, 8.5), (-8.5, 5.5), (-10.0, 1.5), (-9.5, -3.0),
           (-7.0, -7.0), (-2.0, -9.5), (6.0, -8.0)]


def _twelve(k=1.0):
    return [Vector2D(k * p[0], k * p[1]) for p in _TWELVE]


def area12(a: Vec, b: Vec, c: Vec, d: Vec, e: Vec, f: Vec, g: Vec, h: Vec, i: Vec, j: Vec, k: Vec, l: Vec):
    ps = [a, b, c, d, e, f, g, h, i, j, k, l]
    check(close(Polygon2D(ps).double_signed_area(), _shoelace(ps)), "12 vertices: signed double area is the shoelace sum")


def box13(x: Vec):
    b = Polygon2D([x] + _twelve()).get_bounding_box()
    c = Polygon2D(_twelve() + [x]).get_bounding_box()
    d = Polygon2D(_twelve()[:6] + [x] + _twelve()[6:]).get_bounding_box()
    w = (min(x.x(), -10.0), min(x.y(), -9.5), max(x.x(), 10.0), max(x.y(), 10.0))
    check(close((b.left(), b.top(), b.right(), b.bottom()), w), "bounding box of 13 vertices, the first free")
    check(close((c.left(), c.top(), c.right(), c.bottom()), w), "bounding box of 13 vertices, the last free")
    check(close((d.left(), d.top(), d.right(), d.bottom()), w), "bounding box of 13 vertices, the middle free")


def _distance12(e, t, h, what):
    """the point at the fraction t of the edge e, moved outwards by h times the edge's normal"""
    ps = _twelve()
    p = ps[e]
    q = ps[(e + 1) % 12]
    dx = q.x() - p.x()
    dy = q.y() - p.y()
    x = Vector2D(p.x() + t * dx + h * dy, p.y() + t * dy - h * dx)
    d = Polygon2D(ps).dist(x)
    check(close(d * d, h * h * (dx * dx + dy * dy)), what)


def distance12_first(t: Frac01):
    _distance12(0, t, 2.0, "12 vertices: distance to the first edge")


def distance12_middle(t: Frac01):
    _distance12(6, t, 2.0, "12 vertices: distance to a middle edge")


def distance12_late(t: Frac01):
    _distance12(10, t, 2.0, "12 vertices: distance to the last but one edge")


def distance12_last(t: Frac01):
    _distance12(11, t, 2.0, "12 vertices: distance to the closing edge")


def distance12_inside(x: Unit, y: Unit):
    check(close(Polygon2D(_twelve()).dist(Vector2D(x, y)), 0.0), "12 vertices: distance 0 inside")


# many vertices: a parabola of 40 points, counter-clockwise and convex
def _forty():
    return [Vector2D(float(i), float(i * i) / 20.0) for i in range(-20, 20)]


def area40(x: Real, y: Real):
    for at in (0, 12, 25, 38, 39):
        ps = _forty()
        ps[at] = Vector2D(x, y)
        g = Polygon2D(ps)
        check(close(g.double_signed_area(), _shoelace(ps)), "40 vertices: signed double area is the shoelace sum")
        check(close(g.area(), abs(_shoelace(ps)) / 2.0), "40 vertices: area")
        ps.reverse()
        check(close(Polygon2D(ps).double_signed_area(), -g.double_signed_area()), "40 vertices: reversal negates")


def area_all_sizes(x: Real, y: Real):
    ps = []
    for i in range(20):
        ps.append(Vector2D(x + float(i), y + float(i * i)))
        g = Polygon2D(ps)
        check(close(g.double_signed_area(), _shoelace(ps) if len(ps) > 2 else 0.0), "signed double area for any number of vertices")
        check(g.is_counter_clockwise() == (len(ps) > 2) and not g.is_clockwise(), "orientation for any number of vertices")


def box40(x: Real, y: Real):
    for at in (0, 12, 25, 38, 39):
        ps = _forty()
        ps[at] = Vector2D(x, y)
        b = Polygon2D(ps).get_bounding_box()
        ps.pop(at)
        w = (min([x] + [q.x() for q in ps]), min([y] + [q.y() for q in ps]), max([x] + [q.x() for q in ps]), max([y] + [q.y() for q in ps]))
        check(close((b.left(), b.top(), b.right(), b.bottom()), w), "bounding box of 40 vertices")


def box_turned(x: Real, y: Real):
    ps = _forty()
    b = Polygon2D([Vector2D(x + q.y(), y - q.x()) for q in ps]).get_bounding_box()
    check(close((b.left(), b.top(), b.right(), b.bottom()), (x, y - 19.0, x + 20.0, y + 20.0)), "bounding box of 40 vertices, turned and moved")


def _distance_many(i):
    """beside the edge i of 20"""
    ps = _forty()[10:30]
    g = Polygon2D(ps)
    p = ps[i]
    q = ps[(i + 1) % 20]
    dx = q.x() - p.x()
    dy = q.y() - p.y()
    x = Vector2D(p.x() + 0.25 * dx + dy / 8.0, p.y() + 0.25 * dy - dx / 8.0)
    d = g.dist(x)
    check(close(d * d, (dx * dx + dy * dy) / 64.0), "20 vertices: distance to any edge")


def distance20_0():
    _distance_many(0)


def distance20_9():
    _distance_many(9)


def distance20_13():
    _distance_many(13)


def distance20_18():
    _distance_many(18)


def distance20_19():
    _distance_many(19)


def distance20_inside():
    check(close(Polygon2D(_forty()[10:30]).dist(Vector2D(0.0, 2.0)), 0.0), "20 vertices: distance 0 inside")
