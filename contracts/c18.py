"""triangles: centres and the circumscribed circle"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.line_2d import Line2D
from pyrusgeom.circle_2d import Circle2D
from contracts.lib import same_vec, same_xy, far


def _proper(a, b, c):
    """far from degenerate, by the library's tolerances"""
    return abs((b - a).outer_product(c - a)) > 0.01 and far(a, b) and far(b, c) and far(c, a)


def centroid(a: Vec, b: Vec, c: Vec):
    g = Triangle2D(a, b, c).centroid()
    check(close((g.x() * 3.0, g.y() * 3.0), (a.x() + b.x() + c.x(), a.y() + b.y() + c.y())),
          "the centroid is the mean of the corners")
    h = Triangle2D.tri_centroid(b, c, a)
    check(close((g.x(), g.y()), (h.x(), h.y())), "the centroid does not depend on the order")


def circumcenter(a: Vec, b: Vec, c: Vec):
    assume(_proper(a, b, c))
    o = Triangle2D(a, b, c).circumcenter()
    check(o.is_valid(), "a proper triangle has a circumcenter")
    check(close(o.dist2(a), o.dist2(b)), "equally far from a and b")
    check(close(o.dist2(b), o.dist2(c)), "equally far from b and c")


def circumcenter_static(a: Vec, b: Vec, c: Vec):
    assume(_proper(a, b, c))
    same_vec(Triangle2D.tri_circumcenter(a, b, c), Triangle2D(a, b, c).circumcenter(), "tri_circumcenter agrees")


def orthocenter(a: Vec, b: Vec, c: Vec):
    assume(_proper(a, b, c))
    h = Triangle2D(a, b, c).orthocenter()
    check(h.is_valid(), "a proper triangle has an orthocenter")
    check(close((h - a).inner_product(c - b), 0.0), "on the altitude of a")
    check(close((h - b).inner_product(a - c), 0.0), "on the altitude of b")
    check(close((h - c).inner_product(b - a), 0.0), "on the altitude of c")
    same_vec(Triangle2D.tri_orthocenter(a, b, c), h, "tri_orthocenter agrees")


def degenerate(a: Vec, u: Vec, k: Real):
    """collinear corners have neither centre"""
    b = a + u
    c = a + u * k
    assume(far(a, b))
    assume(far(b, c))
    assume(far(c, a))
    check(not Triangle2D(a, b, c).orthocenter().is_valid(), "collinear corners have no orthocenter")
    check(not Triangle2D(a, b, c).circumcenter().is_valid(), "collinear corners have no circumcenter")


def incenter_static(a: Vec, b: Vec, c: Vec):
    assume(_proper(a, b, c))
    same_vec(Triangle2D.tri_incenter(a, b, c), Triangle2D(a, b, c).incenter(), "tri_incenter agrees")


def circle(a: Vec, b: Vec, c: Vec):
    assume(_proper(a, b, c))
    k = Circle2D.circum_circle(a, b, c)
    check(close(k.center().dist2(a), k.radius() * k.radius()), "a is on the circumscribed circle")
    check(close(k.center().dist2(b), k.radius() * k.radius()), "b is on the circumscribed circle")
    check(close(k.center().dist2(c), k.radius() * k.radius()), "c is on the circumscribed circle")
    check(k.radius() >= 0.0, "the radius is not negative")


def circle_contains(o: Vec, r: Pos, d: Ang, e: Ang, f: Ang, x: Vec):
    """three points on a circle: the test is that circle"""
    a = Vector2D(o.x() + r * d.cos(), o.y() + r * d.sin())
    b = Vector2D(o.x() + r * e.cos(), o.y() + r * e.sin())
    c = Vector2D(o.x() + r * f.cos(), o.y() + r * f.sin())
    assume(_proper(a, b, c))
    k = x.dist2(o)
    if k > r * r:
        check(not Circle2D.circum_circle_contains(x, a, b, c), "a point outside is not contained")
    if k < r * r - 0.001:
        check(Circle2D.circum_circle_contains(x, a, b, c), "a point inside is contained")


def circle_contains_determinant(a: Vec, b: Vec, c: Vec, x: Vec):
    """the in-circle determinant, for any three corners"""
    t = (b - a).outer_product(c - a)
    assume(abs(t) > 0.00001)
    ax = a.x() - x.x()
    ay = a.y() - x.y()
    bx = b.x() - x.x()
    by = b.y() - x.y()
    cx = c.x() - x.x()
    cy = c.y() - x.y()
    det = (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) \
        + (cx * cx + cy * cy) * (ax * by - bx * ay)
    if t > 0.0 and det <= 0.0:
        check(not Circle2D.circum_circle_contains(x, a, b, c), "outside a counter-clockwise triangle's circle")
    if t < 0.0 and det >= 0.0:
        check(not Circle2D.circum_circle_contains(x, a, b, c), "outside a clockwise triangle's circle")


def incenter_right(k: Pos):
    """the incenter of right-angled triangles with legs in the ratio 3:4"""
    assume(k > 0.00001)
    o = Triangle2D(Vector2D(0.0, 0.0), Vector2D(3.0 * k, 0.0), Vector2D(0.0, 4.0 * k)).incenter()
    check(o.is_valid(), "a proper triangle has an incenter")
    check(abs(o.x() - k) <= 0.000001 * k, "the incenter of a 3:4:5 triangle (x)")
    check(abs(o.y() - k) <= 0.000001 * k, "the incenter of a 3:4:5 triangle (y)")


# ------------------------------------------------- incenters of triangles with known ones
def _inner(p, q, r, i, k, what):
    """corners p, q, r and incenter i, all scaled by k, in every order and turned by quarters"""
    for t in (0, 1, 2, 3):
        if t:
            p, q, r, i = (-p[1], p[0]), (-q[1], q[0]), (-r[1], r[0]), (-i[1], i[0])
        for u, v, w in ((p, q, r), (q, r, p), (r, p, q), (p, r, q), (r, q, p), (q, p, r)):
            a = Vector2D(u[0] * k, u[1] * k)
            b = Vector2D(v[0] * k, v[1] * k)
            c = Vector2D(w[0] * k, w[1] * k)
            o = Triangle2D.tri_incenter(a, b, c)
            check(o.is_valid(), "a proper triangle has an incenter" + what)
            check(abs(o.x() - i[0] * k) <= 0.000001 * k and abs(o.y() - i[1] * k) <= 0.000001 * k,
                  "the incenter is equally far from all sides" + what)


def incenter_acute(k: Pos):
    assume(k > 0.00001)
    _inner((0.0, 0.0), (14.0, 0.0), (5.0, 12.0), (6.0, 4.0), k, " (13:14:15)")


def incenter_obtuse(k: Pos):
    assume(k > 0.00001)
    _inner((0.0, 0.0), (11.0, 0.0), (16.0, 12.0), (9.0, 3.0), k, " (11:13:20)")


def incenter_blunt(k: Pos):
    assume(k > 0.00001)
    _inner((0.0, 0.0), (4.0, 0.0), (-5.0, 12.0), (1.0, 1.5), k, " (4:13:15)")


def incenter_345(k: Pos):
    assume(k > 0.00001)
    _inner((0.0, 0.0), (3.0, 0.0), (0.0, 4.0), (1.0, 1.0), k, " (3:4:5)")


def incenter_isosceles(k: Pos):
    assume(k > 0.00001)
    _inner((-3.0, 0.0), (3.0, 0.0), (0.0, 4.0), (0.0, 1.5), k, " (5:5:6)")


def incenter_flat(k: Pos):
    assume(k > 0.00001)
    _inner((-12.0, 0.0), (12.0, 0.0), (0.0, 5.0), (0.0, 2.4), k, " (13:13:24)")


def incenter_moved(x: Real, y: Real):
    o = Triangle2D.tri_incenter(Vector2D(x, y), Vector2D(x + 14.0, y), Vector2D(x + 5.0, y + 12.0))
    check(o.is_valid(), "a moved triangle has an incenter")
    check(abs(o.x() - x - 6.0) <= 0.000001 and abs(o.y() - y - 4.0) <= 0.000001, "the incenter moves with the corners")
