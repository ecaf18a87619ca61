"""convex hulls of small point sets in general position"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom import convex_hull
from pyrusgeom.convex_hull import ConvexHull, MethodType, is_clockwise

WRAP = MethodType.WRAPPING_METHOD
SCAN = MethodType.GRAHAN_SCAN
DIRECT = MethodType.DIRECT_METHOD


def _area(p, q, r):
    return (q.x() - p.x()) * (r.y() - p.y()) - (q.y() - p.y()) * (r.x() - p.x())


def _general(ps):
    """no three of the points are near a line"""
    n = len(ps)
    for i in range(n):
        for j in range(i):
            for k in range(j):
                a = _area(ps[i], ps[j], ps[k])
                assume(a > 0.001 or a < -0.001)


def _among(v, ps):
    r = False
    for p in ps:
        r = r or (v.x() == p.x() and v.y() == p.y())
    return r


def _sides(o, t, ps):
    """the signs of the areas of all points with an edge"""
    pos = False
    neg = False
    for p in ps:
        a = _area(o, t, p)
        pos = pos or a > 0.0
        neg = neg or a < 0.0
    return pos, neg


def _hull(ps, kind, what, first=0):
    """first: so many points are there when the hull is computed a first time"""
    if first:
        h = ConvexHull(ps[:first])
        h.compute(kind)
        h.add_point(ps[first])
        h.add_points(ps[first + 1:])
    else:
        h = ConvexHull(ps)
    h.compute(kind)
    vs = h.vertices()
    es = h.edges()
    n = len(vs)
    check(n >= 3, what + ": at least three vertices")
    check(len(es) == n, what + ": as many edges as vertices")
    for v in vs:
        check(_among(v, ps), what + ": the vertices are input points")
    for i in range(n):
        for j in range(i):
            check(not (vs[i].x() == vs[j].x() and vs[i].y() == vs[j].y()), what + ": no vertex is listed twice")
    for e in es:
        check(_among(e.origin(), vs) and _among(e.terminal(), vs), what + ": the edges join vertices")
        pos, neg = _sides(e.origin(), e.terminal(), ps)
        check(not (pos and neg), what + ": all points on one side of every edge")
    for p in ps:
        k = 0
        for e in es:
            if (e.origin().x() == p.x() and e.origin().y() == p.y()) or (e.terminal().x() == p.x() and e.terminal().y() == p.y()):
                k += 1
        check(k == 0 or k == 2, what + ": two edges meet at every vertex")
    qs = h.input_points()
    check(len(qs) == len(ps), what + ": no input point is lost")
    for p in ps:
        check(_among(p, qs), what + ": the input points are kept")
    return vs


def _ordered(vs, what):
    n = len(vs)
    for i in range(n):
        p = vs[i]
        q = vs[(i + 1) % n]
        pos, neg = _sides(p, q, vs)
        check(not (pos and neg), what + ": the vertices are in order around the hull")


def wrap3(p: Vec, q: Vec, r: Vec):
    _general([p, q, r])
    vs = _hull([p, q, r], WRAP, "3 points")
    check(len(vs) == 3, "three points: three vertices")
    _ordered(vs, "3 points")


def scan3(p: Vec, q: Vec, r: Vec):
    _general([p, q, r])
    vs = _hull([p, q, r], SCAN, "3 points")
    check(len(vs) == 3, "three points: three vertices")
    _ordered(vs, "3 points")


def _spread(k, x):
    """a fixed triangle and one free point, the free point at place k"""
    ps = [Vector2D(0.0, 0.0), Vector2D(6.0, 1.0), Vector2D(2.0, 5.0)]
    ps.insert(k, x)
    return ps


def _inside(x):
    a = _area(Vector2D(0.0, 0.0), Vector2D(6.0, 1.0), x)
    b = _area(Vector2D(6.0, 1.0), Vector2D(2.0, 5.0), x)
    c = _area(Vector2D(2.0, 5.0), Vector2D(0.0, 0.0), x)
    return a > 0.0 and b > 0.0 and c > 0.0


def _four(k, x, kind, what):
    ps = _spread(k, x)
    _general(ps)
    vs = _hull(ps, kind, what)
    if _inside(x):
        check(len(vs) == 3, what + ": an inner point is no vertex")
    else:
        check(_among(x, vs), what + ": an outer point is a vertex")
    return vs


def wrap4_first(x: Vec):
    _ordered(_four(0, x, WRAP, "4 points"), "4 points")


def wrap4_second(x: Vec):
    _ordered(_four(1, x, WRAP, "4 points"), "4 points")


def wrap4_third(x: Vec):
    _ordered(_four(2, x, WRAP, "4 points"), "4 points")


def wrap4_last(x: Vec):
    _ordered(_four(3, x, WRAP, "4 points"), "4 points")


def scan4_first(x: Vec):
    _ordered(_four(0, x, SCAN, "4 points"), "4 points")


def scan4_second(x: Vec):
    _ordered(_four(1, x, SCAN, "4 points"), "4 points")


def scan4_third(x: Vec):
    _ordered(_four(2, x, SCAN, "4 points"), "4 points")


def scan4_last(x: Vec):
    _ordered(_four(3, x, SCAN, "4 points"), "4 points")


def direct4_first(x: Vec):
    _four(0, x, DIRECT, "4 points")


def direct4_last(x: Vec):
    _four(3, x, DIRECT, "4 points")


def orientation(p: Vec, q: Vec, r: Vec):
    a = _area(p, q, r)
    assume(a > 0.001 or a < -0.001)
    check(is_clockwise(p, q, r) == (a < 0.0), "is_clockwise is a negative area")


def polygon(p: Vec, q: Vec, r: Vec):
    _general([p, q, r])
    h = ConvexHull([p, q, r])
    h.compute(WRAP)
    g = h.to_polygon()
    a = abs(_area(p, q, r))
    check(close(g.area() * 2.0, a), "the area of the hull of three points")


def points_added(p: Vec, q: Vec, r: Vec):
    h = ConvexHull([p])
    h.add_point(q)
    h.add_points([r])
    check(len(h.input_points()) == 3, "added points are kept")
    check(len(h.vertices()) == 0 and len(h.edges()) == 0, "nothing computed yet")
    _general([p, q, r])
    h.compute()
    check(len(h.vertices()) == 3, "computed")
    h.compute()
    check(len(h.vertices()) == 3 and len(h.edges()) == 3, "computed again")
    h.clear_results()
    check(len(h.vertices()) == 0 and len(h.edges()) == 0, "cleared results")
    check(len(h.input_points()) == 3, "the input is kept")
    h.clear()
    check(len(h.input_points()) == 0, "cleared input")


def too_few(p: Vec, q: Vec):
    for kind in (WRAP, SCAN, DIRECT):
        for ps in ([], [p], [p, q]):
            h = ConvexHull(ps)
            h.compute(kind)
            check(len(h.vertices()) == 0 and len(h.edges()) == 0, "no hull of fewer than three points")
            check(len(h.input_points()) == len(ps), "the input of fewer than three points is kept")


def _five(k, x, kind, what):
    ps = [Vector2D(0.0, 0.0), Vector2D(6.0, 1.0), Vector2D(2.0, 2.5), Vector2D(2.0, 5.0)]
    ps.insert(k, x)
    _general(ps)
    vs = _hull(ps, kind, what)
    if _inside(x):
        check(len(vs) == 3, what + ": inner points are no vertices")
    else:
        check(_among(x, vs), what + ": an outer point is a vertex")
    _ordered(vs, what)


def wrap5_first(x: Vec):
    _five(0, x, WRAP, "5 points")


def wrap5_last(x: Vec):
    _five(4, x, WRAP, "5 points")


def wrap5_middle(x: Vec):
    _five(2, x, WRAP, "5 points")


def scan5_first(x: Vec):
    _five(0, x, SCAN, "5 points")


def scan5_last(x: Vec):
    _five(4, x, SCAN, "5 points")


def scan5_middle(x: Vec):
    _five(2, x, SCAN, "5 points")


def wrap4_moved(d: Vec, x: Vec):
    ps = [d, d + Vector2D(6.0, 1.0), x, d + Vector2D(2.0, 5.0)]
    _general(ps)
    _ordered(_hull(ps, WRAP, "4 points anywhere"), "4 points anywhere")


def scan4_moved(d: Vec, x: Vec):
    ps = [d, d + Vector2D(6.0, 1.0), x, d + Vector2D(2.0, 5.0)]
    _general(ps)
    _ordered(_hull(ps, SCAN, "4 points anywhere"), "4 points anywhere")


def wrap4_any(p: Vec, q: Vec, r: Vec, s: Vec):
    ps = [p, q, r, s]
    _general(ps)
    _ordered(_hull(ps, WRAP, "any 4 points"), "any 4 points")


def scan4_any(p: Vec, q: Vec, r: Vec, s: Vec):
    assume(p.x() < q.x() and q.x() < r.x() and r.x() < s.x())
    ps = [p, q, r, s]
    _general(ps)
    _ordered(_hull(ps, SCAN, "any 4 points"), "any 4 points")


def scan4_any_reversed(p: Vec, q: Vec, r: Vec, s: Vec):
    assume(p.x() > q.x() and q.x() > r.x() and r.x() > s.x())
    ps = [p, q, r, s]
    _general(ps)
    _ordered(_hull(ps, SCAN, "any 4 points from the right"), "any 4 points from the right")


def direct3(p: Vec, q: Vec, r: Vec):
    _general([p, q, r])
    _hull([p, q, r], DIRECT, "3 points")


_MANY = [(2.0, 1.0), (10.0, 1.0), (-5.5, 8.5), (3.0, 9.5), (-1.0, 3.0), (6.0, -8.0), (-10.0, 1.5), (9.0, 5.0), (-7.0, -7.0), (1.5, -4.0),
         (-2.0, -9.5), (6.5, 8.0)]


def _many(d, kind, what):
    """a set of 12 points, four of them inner, moved by d"""
    ps = [Vector2D(d.x() + p[0], d.y() + p[1]) for p in _MANY]
    vs = _hull(ps, kind, what)
    check(len(vs) == 9, what + ": the inner points are no vertices")
    return vs


def wrap12(d: Vec):
    _ordered(_many(d, WRAP, "12 points"), "12 points")


def scan12(d: Vec):
    _ordered(_many(d, SCAN, "12 points"), "12 points")


def wrap12_reversed(d: Vec):
    ps = [Vector2D(d.x() - p[0], d.y() - p[1]) for p in _MANY]
    _ordered(_hull(ps, WRAP, "12 points turned"), "12 points turned")


def scan12_reversed(d: Vec):
    ps = [Vector2D(d.x() - p[0], d.y() - p[1]) for p in _MANY]
    _ordered(_hull(ps, SCAN, "12 points turned"), "12 points turned")


def direct8():
    _hull([Vector2D(p[0], p[1]) for p in _MANY[:8]], DIRECT, "8 points")


def grown_wrap(x: Vec):
    ps = [Vector2D(0.0, 0.0), Vector2D(6.0, 1.0), Vector2D(2.0, 5.0), x]
    _general(ps)
    vs = _hull(ps, WRAP, "a fourth point", 3)
    check(_inside(x) or _among(x, vs), "an outer point added later is a vertex")
    _ordered(vs, "a fourth point")


def grown_scan(x: Vec):
    ps = [Vector2D(0.0, 0.0), Vector2D(6.0, 1.0), Vector2D(2.0, 5.0), x]
    _general(ps)
    vs = _hull(ps, SCAN, "a fourth point", 3)
    check(_inside(x) or _among(x, vs), "an outer point added later is a vertex")
    _ordered(vs, "a fourth point")


def grown_many(d: Vec):
    for kind in (WRAP, SCAN):
        for k in (2, 5, 11):
            vs = _hull([Vector2D(d.x() + p[0], d.y() + p[1]) for p in _MANY], kind, "points added", k)
            check(len(vs) == 9, "points added: the inner points are no vertices")


_RING = [(20.0, 1.0), (3.0, -18.5), (-7.0, 17.5), (14.5, 12.0), (-19.0, -3.5), (18.5, -6.5), (0.5, 19.5), (-15.0, 12.0),
         (-12.5, -14.0), (9.0, 17.0), (10.5, -15.5), (-5.0, -18.0), (-18.5, 5.5), (19.0, 7.0), (5.0, 1.0), (-6.0, 2.5),
         (1.5, -7.0), (2.0, 8.5), (-8.0, -6.0), (7.5, 6.0), (-3.5, -0.5), (11.0, -2.0), (-9.5, 9.0), (4.0, -12.0)]


def _ring(kind, d):
    """24 points, ten of them inner"""
    ps = [Vector2D(d.x() + p[0], d.y() + p[1]) for p in _RING]
    vs = _hull(ps, kind, "24 points")
    check(len(vs) == 14, "24 points: the inner points are no vertices")
    return vs


def wrap24(d: Vec):
    _ordered(_ring(WRAP, d), "24 points")


def scan24(d: Vec):
    _ordered(_ring(SCAN, d), "24 points")


def direct12():
    vs = _hull([Vector2D(p[0], p[1]) for p in _MANY], DIRECT, "12 points")
    check(len(vs) == 9, "12 points: the inner points are no vertices")


def direct_ring():
    vs = _hull([Vector2D(p[0], p[1]) for p in _RING[:16]], DIRECT, "16 points")
    check(len(vs) == 14, "16 points: every outer point is a vertex")


def unique(x: Vec, y: Vec, z: Vec):
    """the list of distinct items, in the order of their first occurrence"""
    if not hasattr(convex_hull, "list2set"):
        return
    assume(x != y)
    assume(x != z)
    assume(y != z)
    r = convex_hull.list2set([x, y, z, x, z, y])
    check(len(r) == 3, "each item once")
    check(r[0] == x and r[1] == y and r[2] == z, "in the order of first occurrence")


def unique_many():
    if not hasattr(convex_hull, "list2set"):
        return
    for n in (1, 5, 12, 30):
        ps = [Vector2D(k, 0.5 * k) for k in range(n)]
        check(len(convex_hull.list2set(ps + [p.copy() for p in ps])) == n, "every second copy is dropped")
        check(len(convex_hull.list2set([ps[0]] * n)) == 1, "one item of a list of copies")
        check(len(convex_hull.list2set(ps)) == n, "distinct items are kept")
    check(len(convex_hull.list2set([])) == 0, "no items of an empty list")


_CORNERS = [(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)]
_SQUARE = _CORNERS + [(1.0, 0.0), (4.0, 2.0), (3.0, 4.0), (0.0, 2.0), (1.0, 1.0)]


def _is_corners(vs, d, corners, what):
    check(len(vs) == len(corners), what + ": only the corners are vertices")
    ps = [Vector2D(d.x() + p[0], d.y() + p[1]) for p in corners]
    for p in ps:
        check(_among(p, vs), what + ": every corner is a vertex")


def _wrapped(ps, d):
    h = ConvexHull([Vector2D(d.x() + p[0], d.y() + p[1]) for p in ps])
    h.compute(WRAP)
    check(len(h.edges()) == len(h.vertices()), "an edge for each vertex")
    return h.vertices()


def wrap_points_on_sides(d: Vec):
    for k in range(len(_SQUARE)):
        ps = _SQUARE[k:] + _SQUARE[:k]
        _is_corners(_wrapped(ps, d), d, _CORNERS, "points on the sides")
        _is_corners(_wrapped(ps[::-1], d), d, _CORNERS, "points on the sides")


def wrap_copies(d: Vec):
    for k in range(len(_CORNERS)):
        ps = _SQUARE[k:] + _SQUARE[:k]
        ps.append(_CORNERS[k])
        _is_corners(_wrapped(ps, d), d, _CORNERS, "a corner given twice")
        _is_corners(_wrapped(ps[::-1], d), d, _CORNERS, "a corner given twice")
    _is_corners(_wrapped(_SQUARE + _SQUARE, d), d, _CORNERS, "every point given twice")


def wrap_on_a_side(d: Vec, t: Frac01):
    """a point anywhere on each side of a triangle, at each place of the list"""
    ps = [(0.0, 0.0), (6.0, 1.0), (2.0, 5.0)]
    for i in range(3):
        a = ps[i]
        b = ps[(i + 1) % 3]
        x = (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)
        for k in range(4):
            _is_corners(_wrapped(ps[:k] + [x] + ps[k:], d), d, ps, "a point on a side")


def scan_points_on_sides(d: Vec):
    for k in range(len(_SQUARE)):
        ps = _SQUARE[k:] + _SQUARE[:k]
        h = ConvexHull([Vector2D(d.x() + p[0], d.y() + p[1]) for p in ps])
        h.compute(SCAN)
        for p in _CORNERS:
            check(_among(Vector2D(d.x() + p[0], d.y() + p[1]), h.vertices()), "the scan: every corner is a vertex")
        check(not _among(Vector2D(d.x() + 1.0, d.y() + 1.0), h.vertices()), "the scan: an inner point is no vertex")
        check(close(h.to_polygon().area(), 16.0), "the scan: the area of the hull")


def polygon_many(d: Vec):
    for kind in (WRAP, SCAN):
        h = ConvexHull([Vector2D(d.x() + p[0], d.y() + p[1]) for p in _RING])
        h.compute(kind)
        vs = h.vertices()
        gs = h.to_polygon().vertices()
        check(len(gs) == len(vs), "a vertex of the polygon for each vertex of the hull")
        for i in range(len(vs)):
            check(close((gs[i].x(), gs[i].y()), (vs[i].x(), vs[i].y())), "the polygon has the vertices of the hull in their order")
