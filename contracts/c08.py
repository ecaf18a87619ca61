"""objects own their parts"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D, XLessEqual
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.convex_hull import ConvexHull, MethodType
from pyrusgeom import soccer_math


def _vec(v, x, y, what):
    check(close((v.x(), v.y()), (x, y)) and v.is_valid(), what)


def _ang(a, d, what):
    check(close(a.degree(), d), what)


def _spoil(v):
    """a change in every component"""
    v.assign(v.x() + 3.0, v.y() - 5.0)


def _turn(a):
    a += 90.0


# ------------------------------------------------------- vectors and angles
def vector_copies(x: Real, y: Real):
    v = Vector2D(x, y)
    for k in range(3):
        w = v.copy() if k == 0 else (v.get_copy() if k == 1 else Vector2D(v))
        check(w is not v, "a copy is another vector")
        _spoil(w)
        _vec(v, x, y, "changing a copy keeps the original")
    w = v.copy()
    _spoil(v)
    _vec(w, x, y, "changing the original keeps a copy")
    w.set_vector(v)
    _spoil(v)
    _vec(w, x + 3.0, y - 5.0, "set_vector takes a copy")


def vector_results(x: Real, y: Real, p: Real, q: Real, k: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    for r in (v + w, v - w, v * k, v.abs(), v.reverse_vector(), v.normalize_vector(), v.set_length_vector(1.0),
              v.rotated_vector(0.0), v * 1.0, v + Vector2D(0.0, 0.0), v / 1.0):
        check(r is not v and r is not w, "a result is a vector of its own")
        _spoil(r)
        _vec(v, x, y, "changing a result keeps the left operand")
        _vec(w, p, q, "changing a result keeps the right operand")


def vector_results_later(x: Real, y: Real, p: Real, q: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    a = v + w
    b = v - w
    c = v * 2.0
    _spoil(v)
    _spoil(w)
    _vec(a, x + p, y + q, "a sum keeps its value")
    _vec(b, x - p, y - q, "a difference keeps its value")
    _vec(c, 2.0 * x, 2.0 * y, "a multiple keeps its value")


def angle_copies(d: DegOpen):
    a = AngleDeg(d)
    b = a.copy()
    c = AngleDeg(a)
    _turn(b)
    _ang(a, d, "changing a copy keeps the angle")
    _turn(c)
    _ang(a, d, "changing an angle built from another keeps that")
    e = AngleDeg(0.0)
    e.set_angle(a)
    _turn(e)
    _ang(a, d, "set_angle takes a copy")
    f = a.copy()
    g = a + 0.0
    h = a * 1.0
    n = -a
    _turn(a)
    _ang(f, d, "changing the angle keeps a copy")
    _ang(g, d, "a sum is an angle of its own")
    _ang(h, d, "a product is an angle of its own")
    _ang(n, -d, "a negation is an angle of its own")


def angle_results(d: DegOpen, e: DegOpen, k: Real):
    a = AngleDeg(d)
    b = AngleDeg(e)
    for r in (a + b, a - b, a + k, a - k, a * k, -a, a.reverse_angle(), AngleDeg.bisect(a, b), a.copy(), a + 0):
        check(r is not a and r is not b, "a result is an angle of its own")
        r.set_degree(33.0)
        _ang(a, d, "changing a result keeps the left operand")
        _ang(b, e, "changing a result keeps the right operand")


def vector_direction(x: Real, y: Real):
    assume(x > 0.0)
    v = Vector2D(x, y)
    a = v.th()
    b = v.dir()
    d = a.degree()
    _turn(a)
    _ang(v.th(), d, "the direction returned is a copy")
    _ang(b, d, "directions returned are apart")
    _vec(v, x, y, "changing a direction keeps the vector")


def polar(r: Pos, d: DegOpen):
    a = AngleDeg(d)
    v = Vector2D.from_polar(r, a)
    w = Vector2D(0.0, 1.0)
    w.set_polar(r, a)
    x = v.x()
    y = v.y()
    _turn(a)
    _vec(v, x, y, "from_polar keeps no angle")
    _vec(w, x, y, "set_polar keeps no angle")


# -------------------------------------------------------------------- lines
def line_points(x: Real, y: Real, p: Real, q: Real):
    assume(abs(x - p) > 0.01)
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    for n in (Line2D(v, w), Line2D.perpendicular_bisector(v, w)):
        m = (n.a(), n.b(), n.c())
        v.assign(x + 1.0, y + 2.0)
        w.assign(p - 4.0, q + 3.0)
        check(close((n.a(), n.b(), n.c()), m), "changing a point keeps the line")
        v.assign(x, y)
        w.assign(p, q)


def line_direction(x: Real, y: Real, d: DegOpen):
    v = Vector2D(x, y)
    a = AngleDeg(d)
    n = Line2D(v, a)
    m = (n.a(), n.b(), n.c())
    _spoil(v)
    _turn(a)
    check(close((n.a(), n.b(), n.c()), m), "changing point and direction keeps the line")


def line_results(p: Real, q: Real, r: Real, x: Real, y: Real):
    assume(p > 0.5)
    n = Line2D(p, q, r)
    v = Vector2D(x, y)
    n.copy()
    w = n.projection(v)
    check(w is not v, "a projection is a vector of its own")
    _spoil(w)
    _vec(v, x, y, "changing a projection keeps the point")
    w = n.projection(v)
    x1 = w.x()
    y1 = w.y()
    _spoil(v)
    _vec(w, x1, y1, "changing the point keeps the projection")


def line_results_on(p: Real, q: Real, x: Real, y: Real):
    """projecting a point of the line"""
    assume(p > 0.5)
    v = Vector2D(x, y)
    n = Line2D(p, q, -p * x - q * y)
    w = n.projection(v)
    _spoil(w)
    _vec(v, x, y, "changing the projection keeps a point of the line")


# --------------------------------------------------------------------- rays
def ray_parts(x: Real, y: Real, d: DegOpen):
    v = Vector2D(x, y)
    a = AngleDeg(d)
    r = Ray2D(v, a)
    _spoil(v)
    _turn(a)
    _vec(r.origin(), x, y, "a ray copies its origin")
    _ang(r.dir(), d, "a ray copies its direction")
    _spoil(r.origin())
    _turn(r.dir())
    _vec(r.origin(), x, y, "origin() is a copy")
    _ang(r.dir(), d, "dir() is a copy")
    c = r.copy()
    _spoil(c.origin_())
    e = c.dir_()
    e += 90.0
    _vec(r.origin(), x, y, "changing a copy's origin keeps the ray")
    _ang(r.dir(), d, "changing a copy's direction keeps the ray")


def ray_references(x: Real, y: Real, d: DegOpen):
    r = Ray2D(Vector2D(x, y), AngleDeg(d))
    r.origin_().assign(y, x)
    _vec(r.origin(), y, x, "origin_() is a reference")
    r.dir_().set_degree(d / 2.0)
    _ang(r.dir(), d / 2.0, "dir_() is a reference")


def ray_directed(x: Real, y: Real, p: Real, q: Real):
    assume(p - x > 0.1)
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    r = Ray2D(v, w)
    d = r.dir().degree()
    _spoil(w)
    _spoil(v)
    _vec(r.origin(), x, y, "a ray through two points copies the first")
    _ang(r.dir(), d, "a ray through two points keeps its direction")


# ----------------------------------------------------------------- segments
def _seg(s, x, y, p, q, what):
    _vec(s.origin(), x, y, what + " (origin)")
    _vec(s.terminal(), p, q, what + " (terminal)")


def segment_parts(x: Real, y: Real, p: Real, q: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    s = Segment2D(v, w)
    t = Segment2D(0.0, 0.0, 1.0, 1.0)
    t.assign(v, w)
    _spoil(v)
    _spoil(w)
    _seg(s, x, y, p, q, "a segment copies its ends")
    _seg(t, x, y, p, q, "assign copies the ends")
    _spoil(s.origin())
    _spoil(s.terminal())
    _seg(s, x, y, p, q, "origin() and terminal() are copies")
    c = s.copy()
    d = s.reversed_segment()
    _spoil(c.origin_())
    _spoil(c.terminal_())
    _spoil(d.origin_())
    _spoil(d.terminal_())
    _seg(s, x, y, p, q, "changing a copy or the reversed segment")


def segment_references(x: Real, y: Real, p: Real, q: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    s.origin_().assign(y, p)
    s.terminal_().assign(q, x)
    _seg(s, y, p, q, x, "origin_() and terminal_() are references")


def segment_polar(x: Real, y: Real, r: Pos, d: DegOpen):
    v = Vector2D(x, y)
    a = AngleDeg(d)
    s = Segment2D(v, r, a)
    p = s.terminal().x()
    q = s.terminal().y()
    _spoil(v)
    _turn(a)
    _seg(s, x, y, p, q, "a segment from length and direction copies its parts")


def segment_same(x: Real, y: Real):
    """both ends given by one vector"""
    v = Vector2D(x, y)
    s = Segment2D(v, v)
    s.origin_().assign(y, x)
    _vec(s.terminal(), x, y, "the ends of a segment are apart")


def segment_swap(x: Real, y: Real, p: Real, q: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    s.swap()
    _seg(s, p, q, x, y, "swap")
    s.origin_().assign(1.0, 2.0)
    _seg(s, 1.0, 2.0, x, y, "the swapped ends are apart")


def segment_results(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    v = Vector2D(a, b)
    w = s.nearest_point(v)
    _spoil(w)
    _seg(s, x, y, p, q, "changing the nearest point keeps the segment")
    _vec(v, a, b, "changing the nearest point keeps the point")
    w = s.projection(v)
    _spoil(w)
    _seg(s, x, y, p, q, "changing the projection keeps the segment")
    _vec(v, a, b, "changing the projection keeps the point")


# ---------------------------------------------------------------- triangles
def _tri(t, m, what):
    _vec(t.a(), m[0], m[1], what + " (a)")
    _vec(t.b(), m[2], m[3], what + " (b)")
    _vec(t.c(), m[4], m[5], what + " (c)")


def triangle_parts(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    m = (x, y, p, q, a, b)
    u = Vector2D(x, y)
    v = Vector2D(p, q)
    w = Vector2D(a, b)
    t = Triangle2D(u, v, w)
    k = Triangle2D(Vector2D(0.0, 0.0), Vector2D(1.0, 0.0), Vector2D(0.0, 1.0))
    k.assign(u, v, w)
    _spoil(u)
    _spoil(v)
    _spoil(w)
    _tri(t, m, "a triangle copies its corners")
    _tri(k, m, "assign copies the corners")
    _spoil(t.a())
    _spoil(t.b())
    _spoil(t.c())
    _tri(t, m, "a(), b() and c() are copies")
    _spoil(t.centroid())
    _spoil(t.circumcenter())
    _tri(t, m, "changing a centre keeps the triangle")


def triangle_segment(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    m = (x, y, p, q, a, b)
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    w = Vector2D(a, b)
    t = Triangle2D(s, w)
    _spoil(s.origin_())
    _spoil(s.terminal_())
    _spoil(w)
    _tri(t, m, "a triangle from a segment and a point copies them")


def triangle_segment_assign(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    m = (x, y, p, q, a, b)
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    w = Vector2D(a, b)
    t = Triangle2D(Vector2D(0.0, 0.0), Vector2D(1.0, 0.0), Vector2D(0.0, 1.0))
    t.assign(s, w)
    _spoil(s.origin_())
    _spoil(s.terminal_())
    _spoil(w)
    _tri(t, m, "assigning a segment and a point copies them")


def triangle_references(x: Real, y: Real):
    t = Triangle2D(Vector2D(0.0, 0.0), Vector2D(1.0, 0.0), Vector2D(0.0, 1.0))
    t.a_().assign(x, y)
    _tri(t, (x, y, 1.0, 0.0, 0.0, 1.0), "a_() is a reference")
    t.b_().assign(y, x)
    _tri(t, (x, y, y, x, 0.0, 1.0), "b_() is a reference")
    t.c_().assign(x, x)
    _tri(t, (x, y, y, x, x, x), "c_() is a reference")


# --------------------------------------------------------------- rectangles
def _rect(r, m, what):
    check(close((r.left(), r.top(), r.size().length(), r.size().width()), m), what)


def rect_parts(x: Real, y: Real, l: NonNeg, w: NonNeg):
    m = (x, y, l, w)
    v = Vector2D(x, y)
    z = Size2D(l, w)
    u = Vector2D(x + l, y + w)
    a = Rect2D(v, z)
    b = Rect2D(v, u)
    c = Rect2D(v, l, w)
    d = Rect2D(0.0, 0.0, 1.0, 1.0)
    d.assign(v, z)
    e = Rect2D(0.0, 0.0, 1.0, 1.0)
    e.assign(v, u)
    f = Rect2D(0.0, 0.0, 1.0, 1.0)
    f.assign(v, l, w)
    g = Rect2D(a)
    h = Rect2D(0.0, 0.0, 1.0, 1.0)
    h.assign(a)
    i = Rect2D(0.0, 0.0, l, w)
    i.move_top_left(v)
    j = Rect2D(v, 1.0, 1.0)
    j.set_size(z)
    _spoil(v)
    _spoil(u)
    z.assign(l + 1.0, w + 2.0)
    for r in (a, b, c, d, e, f, g, h, i, j):
        _rect(r, m, "a rectangle copies the corner and size it is given")
    a.move_left(x + 7.0)
    a.set_width(w + 1.0)
    _rect(g, m, "a rectangle built from another is apart")
    _rect(h, m, "a rectangle assigned from another is apart")


def rect_accessors(x: Real, y: Real, l: NonNeg, w: NonNeg):
    m = (x, y, l, w)
    r = Rect2D(x, y, l, w)
    for v in (r.center(), r.top_left(), r.top_right(), r.bottom_left(), r.bottom_right()):
        _spoil(v)
        _rect(r, m, "corners and centre are copies")
    z = r.size()
    z.assign(l + 1.0, w + 2.0)
    _rect(r, m, "size() is a copy")


def rect_references(x: Real, y: Real, l: NonNeg, w: NonNeg):
    r = Rect2D(0.0, 0.0, 1.0, 1.0)
    r.top_left_().assign(x, y)
    _rect(r, (x, y, 1.0, 1.0), "top_left_() is a reference")
    r.size_().assign(l, w)
    _rect(r, (x, y, l, w), "size_() is a reference")


def rect_results(x: Real, y: Real, l: Pos, w: Pos):
    """overlap and union with a rectangle inside and with itself"""
    r = Rect2D(x, y, l, w)
    s = Rect2D(x, y, l, w)
    for k in (r.intersected(s), r.united(s), r.intersected(r), r.united(r)):
        check(k is not r and k is not s, "overlap and union are rectangles of their own")
        k.move_left(x + 5.0)
        k.move_top(y - 5.0)
        k.set_length(l + 1.0)
        k.set_width(w + 1.0)
        _rect(r, (x, y, l, w), "changing the overlap or union keeps the receiver")
        _rect(s, (x, y, l, w), "changing the overlap or union keeps the argument")


# ------------------------------------------------------------------ circles
def circle_parts(x: Real, y: Real, r: NonNeg):
    v = Vector2D(x, y)
    c = Circle2D(v, r)
    d = Circle2D()
    d.assign(v, r)
    _spoil(v)
    _vec(c.center(), x, y, "a circle copies its centre")
    _vec(d.center(), x, y, "assign copies the centre")
    _spoil(c.center())
    _vec(c.center(), x, y, "center() is a copy")
    c.center_().assign(y, x)
    _vec(c.center(), y, x, "center_() is a reference")
    _vec(d.center(), x, y, "circles at one centre are apart")


def circle_default(x: Real, y: Real):
    c = Circle2D()
    d = Circle2D()
    c.center_().assign(x, y)
    _vec(d.center(), 0.0, 0.0, "default circles are apart")
    _vec(Circle2D().center(), 0.0, 0.0, "the default centre stays the origin")


# ------------------------------------------------------------------ sectors
def sector_parts(x: Real, y: Real, d: DegOpen, e: DegOpen):
    v = Vector2D(x, y)
    f = AngleDeg(d)
    g = AngleDeg(e)
    s = Sector2D(v, 1.0, 2.0, f, g)
    t = Sector2D(Vector2D(0.0, 0.0), 0.0, 1.0, 0.0, 1.0)
    t.assign(v, 1.0, 2.0, f, g)
    _spoil(v)
    _turn(f)
    _turn(g)
    for k in (s, t):
        _vec(k.center(), x, y, "a sector copies its centre")
        _ang(k.angle_left_start(), d, "a sector copies its start angle")
        _ang(k.angle_right_end(), e, "a sector copies its end angle")
    _spoil(s.center())
    _turn(s.angle_left_start())
    _turn(s.angle_right_end())
    _vec(s.center(), x, y, "center() of a sector is a copy")
    _ang(s.angle_left_start(), d, "angle_left_start() is a copy")
    _ang(s.angle_right_end(), e, "angle_right_end() is a copy")


def sector_references(x: Real, y: Real, d: DegOpen, e: DegOpen):
    s = Sector2D(Vector2D(0.0, 0.0), 0.0, 1.0, 0.0, 1.0)
    s.center_().assign(x, y)
    _vec(s.center(), x, y, "center_() of a sector is a reference")
    s.angle_left_start_().set_degree(d)
    s.angle_right_end_().set_degree(e)
    _ang(s.angle_left_start(), d, "angle_left_start_() is a reference")
    _ang(s.angle_right_end(), e, "angle_right_end_() is a reference")


# ----------------------------------------------------------------- polygons
def _points(l, m, what):
    check(len(l) == len(m), what + " (number)")
    for v, (x, y) in zip(l, m):
        _vec(v, x, y, what)


def polygon_parts(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    m = ((x, y), (p, q), (a, b))
    ps = [Vector2D(x, y), Vector2D(p, q), Vector2D(a, b)]
    g = Polygon2D(ps)
    h = Polygon2D()
    h.assign(ps)
    i = Polygon2D(ps[0])
    i.add_vertex(ps[1])
    i.add_vertex(ps[2])
    j = Polygon2D(ps[0], ps[1], ps[2])
    for v in ps:
        _spoil(v)
    ps.append(Vector2D(1.0, 1.0))
    _points(g.vertices(), m, "a polygon copies its vertices")
    _points(h.vertices(), m, "assign copies the vertices")
    _points(i.vertices(), m, "add_vertex copies the vertex")
    for v in g.vertices():
        _spoil(v)
    g.vertices().append(Vector2D(0.0, 0.0))
    _points(g.vertices(), m, "vertices() is a copy")
    g.clear()
    _points(j.vertices(), m, "a polygon built from single points copies them")
    check(len(ps) == 4, "clearing a polygon keeps the list it was built from")


def polygon_references(x: Real, y: Real):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(1.0, 0.0)])
    g.vertices_().append(Vector2D(x, y))
    g.vertices_()[0].assign(y, x)
    _points(g.vertices(), ((y, x), (1.0, 0.0), (x, y)), "vertices_() is a reference")


def polygon_clip(x: Real, y: Real, k: Real):
    ps = [Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(x, y)]
    got = Polygon2D.get_line_clipped_polygon(XLessEqual(k), ps, Line2D(1.0, 0.0, -k))
    check(got is not ps, "a clipped polygon is a list of its own")
    g = Polygon2D(ps)
    r = g.get_rectangle_clipped_polygon(Rect2D(-1.0, -1.0, 1.0, 1.0))
    check(r is not g, "a clipped polygon is a polygon of its own")
    r.clear()
    _points(g.vertices(), ((0.0, 0.0), (4.0, 1.0), (x, y)), "changing a clipped polygon keeps the original")


def polygon_clip_inside(a: Pos):
    """clipping that removes nothing"""
    assume(a < 4.0)
    g = Polygon2D([Vector2D(1.0, 1.0), Vector2D(5.0, 1.0), Vector2D(1.0 + a, 5.0)])
    r = g.get_rectangle_clipped_polygon(Rect2D(0.0, 0.0, 8.0, 8.0))
    for v in r.vertices_():
        _spoil(v)
    r.clear()
    _points(g.vertices(), ((1.0, 1.0), (5.0, 1.0), (1.0 + a, 5.0)), "clipping away nothing gives a polygon of its own")


# ----------------------------------------------------------------- matrices
def _mat(k, m, what):
    check(close((k.m11(), k.m12(), k.m21(), k.m22(), k.dxtf(), k.dytf()), m), what)


def matrix_results(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    m = (a, b, c, d, e, f)
    k = Matrix2D(a, b, c, d, e, f)
    one = Matrix2D()
    for j in (k * one, one * k, k * k):
        j.translate(1.0, 2.0)
        j.scale(3.0, 4.0)
        _mat(k, m, "changing a product keeps its factors")
        _mat(one, (1.0, 0.0, 0.0, 1.0, 0.0, 0.0), "changing a product keeps the identity")
    j = k.inverted()
    check(j is not k, "an inverse is a matrix of its own")
    j.translate(1.0, 2.0)
    _mat(k, m, "changing the inverse keeps the matrix")


def matrix_inverse_singular(a: Real, b: Real, e: Real, f: Real):
    k = Matrix2D(a, b, a, b, e, f)
    j = k.inverted()
    j.translate(1.0, 2.0)
    _mat(k, (a, b, a, b, e, f), "changing the inverse of a singular matrix keeps it")


def matrix_vector(x: Real, y: Real):
    v = Vector2D(x, y)
    one = Matrix2D()
    w = one.transform(v)
    u = one * v
    _spoil(w)
    _spoil(u)
    _vec(v, x, y, "changing a transformed vector keeps the original")


def matrix_transform_vec(x: Real, y: Real):
    v = Vector2D(x, y)
    w = v.copy()
    r = Matrix2D.make_translation(1.0, 2.0).transform(v)
    _spoil(r)
    _vec(v, x, y, "changing a translated vector keeps the original")
    _vec(w, x, y, "and its copies")


# ------------------------------------------------------------- soccer, hulls
def soccer_results(x: Real, y: Real, p: Real, q: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    for r in (soccer_math.inertia_n_step_travel(v, 1, 0.5), soccer_math.inertia_n_step_point(w, v, 0, 0.5),
              soccer_math.inertia_n_step_point(w, v, 2, 0.5), soccer_math.inertia_final_travel(v, 0.5),
              soccer_math.inertia_final_point(w, v, 0.5)):
        check(r is not v and r is not w, "a predicted point is a vector of its own")
        _spoil(r)
        _vec(v, x, y, "changing a predicted point keeps the velocity")
        _vec(w, p, q, "changing a predicted point keeps the position")


def hull_lists(x: Real, y: Real):
    assume(y > 0.01)
    ps = [Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y)]
    h = ConvexHull(ps)
    ps.append(Vector2D(9.0, 9.0))
    check(len(h.input_points()) == 3, "a hull keeps its own list of points")
    h.input_points().append(Vector2D(1.0, 1.0))
    check(len(h.input_points()) == 3, "input_points() is a copy of the list")
    h.compute(MethodType.WRAPPING_METHOD)
    n = len(h.vertices())
    h.vertices().append(Vector2D(1.0, 1.0))
    h.edges().clear()
    check(len(h.vertices()) == n, "vertices() is a copy of the list")
    check(len(h.edges()) == n, "edges() is a copy of the list")
    g = h.to_polygon()
    g.clear()
    check(len(h.vertices()) == n, "the polygon of a hull is apart")
    g = h.to_polygon()
    for v in g.vertices_():
        _spoil(v)
    _points(ps, ((0.0, 0.0), (4.0, 0.0), (x, y), (9.0, 9.0)), "changing the polygon keeps the points")
    h.clear()
    check(len(ps) == 4, "clearing a hull keeps the list it was built from")


def hull_points_added(x: Real, y: Real):
    ps = [Vector2D(0.0, 0.0), Vector2D(x, y)]
    h = ConvexHull([])
    h.add_points(ps)
    h.add_point(Vector2D(1.0, 1.0))
    check(len(ps) == 2, "adding points keeps the list they came from")
    h.clear()
    check(len(ps) == 2, "clearing a hull keeps the list of points added")
    check(len(h.input_points()) == 0, "clear removes the points")


def triangle_results(y: Real):
    assume(y > 0.1 and y < 3.9)
    a = Vector2D(0.0, 0.0)
    b = Vector2D(4.0, 0.0)
    c = Vector2D(0.0, 4.0)
    for v in (Triangle2D.tri_centroid(a, b, c), Triangle2D.tri_circumcenter(a, b, c), Triangle2D.tri_incenter(a, b, c),
              Triangle2D.tri_orthocenter(a, b, c)):
        check(v is not a and v is not b and v is not c, "a centre is a vector of its own")
        _spoil(v)
    _vec(a, 0.0, 0.0, "changing a centre keeps the first corner")
    _vec(b, 4.0, 0.0, "changing a centre keeps the second corner")
    _vec(c, 0.0, 4.0, "changing a centre keeps the third corner")


# ------------------------------------------------- assigned in every overload
def segment_polar_assign(x: Real, y: Real, r: Pos, d: DegOpen):
    v = Vector2D(x, y)
    a = AngleDeg(d)
    s = Segment2D(1.0, 2.0, 3.0, 4.0)
    s.assign(v, r, a)
    p = s.terminal().x()
    q = s.terminal().y()
    _spoil(v)
    _turn(a)
    _seg(s, x, y, p, q, "assigning point, length and direction copies them")


def segment_polar_zero(x: Real, y: Real, d: DegOpen):
    """a segment of no length: both ends are the given point"""
    v = Vector2D(x, y)
    s = Segment2D(v, 0.0, AngleDeg(d))
    t = Segment2D()
    t.assign(v, 0.0, AngleDeg(d))
    _spoil(v)
    _seg(s, x, y, x, y, "a segment of no length copies its point")
    _seg(t, x, y, x, y, "assigning a segment of no length copies its point")
    _spoil(s.origin_())
    _spoil(t.terminal_())
    _seg(s, x + 3.0, y - 5.0, x, y, "the ends of a segment of no length are apart")
    _seg(t, x, y, x + 3.0, y - 5.0, "the ends of an assigned segment of no length are apart")


def segment_assign_same(x: Real, y: Real):
    v = Vector2D(x, y)
    s = Segment2D()
    s.assign(v, v)
    s.origin_().assign(y, x)
    _seg(s, y, x, x, y, "the assigned ends are apart")
    _vec(v, x, y, "changing an end keeps the vector assigned")


def segment_own_ends(x: Real, y: Real, p: Real, q: Real):
    """assigned from its own and from another segment's ends"""
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    t = Segment2D(s.origin_(), s.terminal_())
    k = Segment2D()
    k.assign(s.terminal_(), s.origin_())
    _spoil(t.origin_())
    _spoil(k.origin_())
    _seg(s, x, y, p, q, "segments built from the ends of another are apart")
    s.assign(s.terminal_(), s.origin_())
    _seg(s, p, q, x, y, "assigning a segment its own ends, exchanged")
    _spoil(s.terminal_())
    _seg(s, p, q, x + 3.0, y - 5.0, "the exchanged ends are apart")


def segment_default(x: Real, y: Real):
    s = Segment2D()
    t = Segment2D()
    s.origin_().assign(x, y)
    _seg(s, x, y, 0.0, 0.0, "the ends of the default segment are apart")
    _seg(t, 0.0, 0.0, 0.0, 0.0, "default segments are apart")
    k = Segment2D(1.0, 2.0, 3.0, 4.0)
    k.assign()
    k.terminal_().assign(x, y)
    _seg(k, 0.0, 0.0, x, y, "the ends of a reset segment are apart")
    _seg(Segment2D(), 0.0, 0.0, 0.0, 0.0, "the default segment stays")


def vector_default(x: Real, y: Real, d: DegOpen):
    v = Vector2D()
    v.assign(x, y)
    _vec(Vector2D(), 0.0, 0.0, "the default vector stays")
    a = AngleDeg()
    a.set_degree(d)
    _ang(AngleDeg(), 0.0, "the default angle stays")
    m = Matrix2D()
    m.translate(x, y)
    _mat(Matrix2D(), (1.0, 0.0, 0.0, 1.0, 0.0, 0.0), "the identity stays")
    z = Size2D()
    z.assign(x, y)
    check(close((Size2D().length(), Size2D().width()), (0.0, 0.0)), "the default size stays")
    g = Polygon2D()
    g.add_vertex(v)
    _points(Polygon2D().vertices(), ((0.0, 0.0),), "the default polygon stays")
    h = Polygon2D([v])
    h.clear()
    h.vertices_()[0].assign(1.0, 2.0)
    _points(Polygon2D().vertices(), ((0.0, 0.0),), "the default polygon stays when a cleared one changes")
    g.clear()
    _points(g.vertices(), ((0.0, 0.0),), "cleared polygons are apart")


def vector_made(x: Real, y: Real):
    """constants handed out more than once"""
    u = Vector2D.invalid()
    w = Vector2D.invalid()
    u.assign(x, y)
    u.validate()
    check(not w.is_valid() and not Vector2D.invalid().is_valid(), "changing an invalid vector keeps the others")
    n = Line2D(0.0, 0.0, 1.0).intersection(Line2D(1.0, 0.0, 0.0))
    n.assign(x, y)
    n.validate()
    check(not Line2D(0.0, 0.0, 1.0).intersection(Line2D(1.0, 0.0, 0.0)).is_valid(), "no intersection is said anew each time")


def triangle_same(x: Real, y: Real):
    v = Vector2D(x, y)
    t = Triangle2D(v, v, v)
    t.a_().assign(y, x)
    _tri(t, (y, x, x, y, x, y), "the corners of a triangle are apart")
    k = Triangle2D(Vector2D(0.0, 0.0), Vector2D(1.0, 0.0), Vector2D(0.0, 1.0))
    k.assign(v, v, v)
    k.b_().assign(y, x)
    _tri(k, (x, y, y, x, x, y), "assigned corners are apart")
    _vec(v, x, y, "changing a corner keeps the vector")


def rect_setters(x: Real, y: Real, l: Pos, w: Pos):
    m = (x, y, l, w)
    v = Vector2D(x, y)
    u = Vector2D(x + l, y + w)
    c = Vector2D(x + l / 2.0, y + w / 2.0)
    a = Rect2D(x + l, y + w, 0.0, 0.0)
    a.set_top_left(v)
    b = Rect2D(x, y, 1.0, 1.0)
    b.set_bottom_right(u)
    e = Rect2D(0.0, 0.0, l, w)
    e.move_center(c)
    f = Rect2D(0.0, 0.0, l, w)
    f.move_bottom_right(u)
    z = Size2D(l, w)
    g = Rect2D.from_center(c, l, w)
    _spoil(v)
    _spoil(u)
    _spoil(c)
    z.assign(1.0, 2.0)
    for r in (a, b, e, f, g):
        _rect(r, m, "moving a rectangle to a point keeps no reference to it")


def rect_of_one_point(x: Real, y: Real):
    v = Vector2D(x, y)
    r = Rect2D(v, v)
    r.move_left(x + 1.0)
    r.set_bottom(y + 2.0)
    _vec(v, x, y, "changing a rectangle keeps the point it was built from")
    _rect(r, (x + 1.0, y, 0.0, 2.0), "and changes only the rectangle")


def rect_edges_later(x: Real, y: Real, l: Pos, w: Pos):
    r = Rect2D(x, y, l, w)
    n = r.left_edge()
    k = (n.a(), n.b(), n.c())
    c = r.center()
    r.move_left(x + 5.0)
    r.set_size(1.0, 1.0)
    check(close((n.a(), n.b(), n.c()), k), "an edge keeps its place when the rectangle moves")
    _vec(c, x + l / 2.0, y + w / 2.0, "the centre keeps its place when the rectangle moves")


def sector_same(x: Real, y: Real, d: DegOpen):
    v = Vector2D(x, y)
    a = AngleDeg(d)
    s = Sector2D(v, 1.0, 2.0, a, a)
    t = Sector2D(v, 1.0, 2.0, 0.0, 1.0)
    t.assign(v, 1.0, 2.0, a, a)
    s.angle_left_start_().set_degree(10.0)
    t.angle_right_end_().set_degree(20.0)
    _ang(s.angle_right_end(), d, "the two angles of a sector are apart")
    _ang(t.angle_left_start(), d, "the two assigned angles of a sector are apart")
    _ang(a, d, "changing an angle of a sector keeps the angle given")
    s.center_().assign(y, x)
    _vec(t.center(), x, y, "sectors at one centre are apart")
    _vec(v, x, y, "changing a sector's centre keeps the vector given")


def polygon_same(x: Real, y: Real):
    v = Vector2D(x, y)
    ps = [v, v, v]
    g = Polygon2D(ps)
    h = Polygon2D()
    h.assign(ps)
    g.vertices_()[1].assign(y, x)
    h.vertices_()[0].assign(y, x)
    _points(g.vertices(), ((x, y), (y, x), (x, y)), "the vertices of a polygon are apart")
    _points(h.vertices(), ((y, x), (x, y), (x, y)), "assigned vertices are apart")
    _vec(v, x, y, "changing a vertex keeps the vector")


def polygon_of_polygon(x: Real, y: Real):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y)])
    h = Polygon2D(g.vertices_())
    k = Polygon2D()
    k.assign(g.vertices_())
    for p in (h, k):
        _spoil(p.vertices_()[2])
        p.add_vertex(Vector2D(9.0, 9.0))
        _points(g.vertices(), ((0.0, 0.0), (4.0, 0.0), (x, y)), "a polygon built from another's vertices is apart")
    g.assign(g.vertices_())
    _points(g.vertices(), ((0.0, 0.0), (4.0, 0.0), (x, y)), "assigning a polygon its own vertices")


def polygon_results(x: Real, y: Real):
    ps = ((0.0, 0.0), (4.0, 0.0), (x, y))
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y)])
    b = g.get_bounding_box()
    c = g.bounding_box_center()
    b.move_left(7.0)
    b.set_size(1.0, 2.0)
    _spoil(c)
    _points(g.vertices(), ps, "changing the bounding box keeps the polygon")
    b = g.get_bounding_box()
    m = (b.left(), b.top(), b.size().length(), b.size().width())
    g.vertices_()[2].assign(y, x)
    _rect(b, m, "a bounding box keeps its value when the polygon changes")


# ------------------------------------------------------- points of crossings
def crossing_segments(x: Pos, y: Pos):
    """crossings at an end of a segment"""
    s = Segment2D(Vector2D(0.0, 0.0), Vector2D(x, y))
    t = Segment2D(Vector2D(0.0, 0.0), Vector2D(x, -y))
    v = s.intersection(t)
    _spoil(v)
    _seg(s, 0.0, 0.0, x, y, "changing a crossing keeps the first segment")
    _seg(t, 0.0, 0.0, x, -y, "changing a crossing keeps the second segment")
    n = Line2D(Vector2D(x, y), Vector2D(x, y + 1.0))
    w = s.intersection(n)
    _spoil(w)
    _seg(s, 0.0, 0.0, x, y, "changing a crossing with a line keeps the segment")


def crossing_ray(x: Real, y: Real, d: Deg):
    """a crossing at the start of the ray"""
    r = Ray2D(Vector2D(x, y), AngleDeg(d))
    for k in (Line2D(Vector2D(x, y), AngleDeg(d + 90.0)), Ray2D(Vector2D(x, y), AngleDeg(d + 90.0))):
        v = r.intersection(k)
        v.assign(v.x() + 1.0, v.y() - 2.0)
        _vec(r.origin(), x, y, "changing a crossing keeps the ray")


def crossing_circle(x: Real, y: Real, r: Pos):
    c = Circle2D(Vector2D(x, y), r)
    s = Segment2D(Vector2D(x, y), Vector2D(x + r, y))
    for v in c.intersection(s):
        _spoil(v)
    _seg(s, x, y, x + r, y, "changing a crossing keeps the segment")
    for v in c.intersection(Circle2D(Vector2D(x, y), r)):
        _spoil(v)
    _vec(c.center(), x, y, "changing a crossing keeps the circle")


def crossing_rect(x: Real, y: Real, l: Pos, w: Pos):
    r = Rect2D(x, y, l, w)
    s = Segment2D(Vector2D(x, y), Vector2D(x + l, y + w))
    for v in r.intersection(s):
        _spoil(v)
    _seg(s, x, y, x + l, y + w, "changing a crossing with a rectangle keeps the segment")
    _rect(r, (x, y, l, w), "changing a crossing keeps the rectangle")


def crossing_triangle(y: Real):
    assume(y > 0.1 and y < 3.9)
    t = Triangle2D(Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0))
    for n in (Line2D(Vector2D(-1.0, y), Vector2D(5.0, y)), Segment2D(Vector2D(0.0, 0.0), Vector2D(4.0, y)), Ray2D(Vector2D(-1.0, y), AngleDeg(0.0))):
        for v in t.intersection(n)[1:]:
            _spoil(v)
    _tri(t, (0.0, 0.0, 4.0, 0.0, 0.0, 4.0), "changing a crossing keeps the triangle")


def circum_circle_parts(x: Real, y: Pos):
    a = Vector2D(0.0, 0.0)
    b = Vector2D(4.0, 0.0)
    c = Vector2D(x, y)
    k = Circle2D.circum_circle(a, b, c)
    m = (k.center().x(), k.center().y(), k.radius())
    _spoil(k.center_())
    _vec(a, 0.0, 0.0, "changing a circum circle keeps the first point")
    _vec(b, 4.0, 0.0, "changing a circum circle keeps the second point")
    _vec(c, x, y, "changing a circum circle keeps the third point")
    k = Circle2D.circum_circle(a, b, c)
    _spoil(a)
    _spoil(b)
    _spoil(c)
    check(close((k.center().x(), k.center().y(), k.radius()), m), "a circum circle keeps its value when the points change")


def lines_taken(x: Real, y: Real, p: Real, q: Real):
    """the line of a segment keeps its value when the segment changes"""
    assume(abs(x - p) > 0.01)
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    n = s.line()
    k = s.perpendicular_bisector()
    m = (n.a(), n.b(), n.c(), k.a(), k.b(), k.c())
    d = s.direction()
    s.origin_().assign(x, y + 1.0)
    s.terminal_().assign(p - 2.0, q)
    s.swap()
    check(close((n.a(), n.b(), n.c(), k.a(), k.b(), k.c()), m), "a line taken from a segment keeps its value")
    e = d.degree()
    s.direction().set_degree(10.0)
    _ang(d, e, "directions of a segment are apart")


def ray_line_taken(x: Real, y: Real, d: DegOpen):
    r = Ray2D(Vector2D(x, y), AngleDeg(d))
    n = r.line()
    m = (n.a(), n.b(), n.c())
    _spoil(r.origin_())
    r.dir_().set_degree(5.0)
    check(close((n.a(), n.b(), n.c()), m), "a line taken from a ray keeps its value")


def angle_of_angles(d: DegOpen, e: DegOpen):
    a = AngleDeg(d)
    v = Vector2D(1.0, 1.0)
    v.set_dir(a)
    r = Ray2D(Vector2D(0.0, 0.0), a)
    s = Sector2D(Vector2D(0.0, 0.0), 0.0, 1.0, a, a)
    t = Ray2D(Vector2D(0.0, 0.0), r.dir_())
    r.dir_().set_degree(e)
    _ang(a, d, "changing a ray's direction keeps the angle it came from")
    _ang(t.dir(), d, "rays in one direction are apart")
    s.angle_left_start_().set_degree(e)
    _ang(a, d, "changing a sector's angle keeps the angle it came from")


# ---------------------------------------------------------- lists of every length
def _apart(m):
    ps = [Vector2D(a, b) for a, b in m]
    g = Polygon2D(ps)
    for v in ps:
        v.assign(77.0, 78.0)
    ps.append(Vector2D(9.0, 9.0))
    _points(g.vertices(), m, "a polygon has vertices of its own, however many")
    qs = [Vector2D(a, b) for a, b in m]
    h = Polygon2D()
    h.assign(qs)
    for v in qs:
        v.assign(77.0, 78.0)
    qs.append(Vector2D(9.0, 9.0))
    if len(m) > 0:
        _points(h.vertices(), m, "an assigned polygon has vertices of its own, however many")
    out = g.vertices()
    for v in out:
        v.assign(77.0, 78.0)
    out.append(Vector2D(9.0, 9.0))
    _points(g.vertices(), m, "the list of vertices is a copy, however many")
    w = Vector2D(5.0, 6.0)
    g.add_vertex(w)
    w.assign(77.0, 78.0)
    _points(g.vertices(), m + ((5.0, 6.0),), "an added vertex is copied, however many there are")
    rs = [Vector2D(a, b) for a, b in m]
    k = ConvexHull(rs)
    rs.append(Vector2D(9.0, 9.0))
    check(len(k.input_points()) == len(m), "a hull has a list of its own, however many points")
    k.add_point(Vector2D(1.0, 1.0))
    check(len(rs) == len(m) + 1, "adding to a hull keeps the list it was given, however long")
    k.clear()
    check(len(rs) == len(m) + 1, "clearing a hull keeps the list it was given, however long")


def list_none(x: Real):
    _apart(())


def list_one(x: Real, y: Real):
    _apart(((x, y),))


def list_two(x: Real, y: Real, p: Real, q: Real):
    _apart(((x, y), (p, q)))


def list_three(x: Real, y: Real, p: Real, q: Real):
    _apart(((x, y), (p, q), (y, x)))


def list_four(x: Real, y: Real, p: Real, q: Real):
    _apart(((x, y), (p, q), (y, x), (q, p)))


def list_closed(x: Real, y: Real, p: Real, q: Real):
    _apart(((x, y), (p, q), (y, x), (x, y)))


def list_long(x: Real, y: Real):
    _apart(((x, y), (1.0, 2.0), (y, x), (2.0, 4.0), (0.0, y), (x, 3.0), (3.0, 3.0), (4.0, x)))


def points_one(x: Real, y: Real, p: Real, q: Real):
    """polygons built from separate points"""
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    g = Polygon2D(v)
    h = Polygon2D(v, w)
    v.assign(77.0, 78.0)
    w.assign(77.0, 78.0)
    _points(g.vertices(), ((x, y),), "a polygon of one separate point")
    _points(h.vertices(), ((x, y), (p, q)), "a polygon of two separate points")


def wind_parts(s: Real, w: Pos, f: Pos, a: DegOpen, u: Pos):
    """the effect returned does not share the error vector"""
    for r in (0.0, 0.5, 1.0):
        e = Vector2D(7.0, 8.0)
        v = soccer_math.wind_effect(s, w, f, a, u, r, e)
        x, y = e.x(), e.y()
        v.assign(x + 1.0, y + 2.0)
        check(close(e.x(), x) and close(e.y(), y), "changing the effect leaves the error alone")
