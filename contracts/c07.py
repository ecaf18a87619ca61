"""queries leave receiver and arguments alone"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D, XLessEqual, XMoreEqual, YLessEqual, YMoreEqual
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.convex_hull import ConvexHull, MethodType
from pyrusgeom import soccer_math


def _vec(v, x, y, what):
    check(close((v.x(), v.y()), (x, y)) and v.is_valid(), what)


def _line(n, m, what):
    check(close((n.a(), n.b(), n.c()), m), what)


def _seg(s, m, what):
    o = s.origin()
    t = s.terminal()
    check(close((o.x(), o.y(), t.x(), t.y()), m), what)
    check(o.is_valid() and t.is_valid(), what + " (validity)")


def _tri(t, m, what):
    a = t.a()
    b = t.b()
    c = t.c()
    check(close((a.x(), a.y(), b.x(), b.y(), c.x(), c.y()), m), what)
    check(a.is_valid() and b.is_valid() and c.is_valid(), what + " (validity)")


def _rect(r, m, what):
    check(close((r.left(), r.top(), r.size().length(), r.size().width()), m), what)
    check(r.top_left().is_valid(), what + " (validity)")


# ------------------------------------------------------------------ vectors
def vector_measures(x: Real, y: Real):
    v = Vector2D(x, y)
    v.x(), v.y(), v.get_x(), v.get_y(), v.is_valid(), v.abs_x(), v.abs_y()
    _vec(v, x, y, "coordinate accessors")
    v.r(), v.r2(), v.length(), v.length2()
    _vec(v, x, y, "lengths")
    v.th(), v.dir()
    _vec(v, x, y, "direction")
    v.abs()
    _vec(v, x, y, "abs")
    v.copy(), v.get_copy(), Vector2D(v)
    _vec(v, x, y, "copies")
    v.reverse_vector()
    _vec(v, x, y, "reverse_vector")
    v.normalize_vector()
    _vec(v, x, y, "normalize_vector")
    hash(v), repr(v), str(v)
    _vec(v, x, y, "hash and representation")


def vector_lengths(x: Real, y: Real, k: Real):
    v = Vector2D(x, y)
    v.set_length_vector(k)
    _vec(v, x, y, "set_length_vector")
    v * k
    _vec(v, x, y, "v * k")
    if k != 0.0:
        v / k
    _vec(v, x, y, "v / k")


def vector_turns(x: Real, y: Real, d: Deg):
    v = Vector2D(x, y)
    a = AngleDeg(d)
    b = a.degree()
    v.rotated_vector(a)
    _vec(v, x, y, "rotated_vector")
    check(close(a.degree(), b), "rotated_vector keeps the angle")
    v.rotated_vector(d)
    _vec(v, x, y, "rotated_vector by a number")
    w = Vector2D(x, y)
    w.rotate(a)
    check(close(a.degree(), b), "rotate keeps the angle")
    w.set_dir(a)
    check(close(a.degree(), b), "set_dir keeps the angle")
    w.set_polar(x, a)
    check(close(a.degree(), b), "set_polar keeps the angle")
    Vector2D.from_polar(y, a), Vector2D.polar2vector(y, a)
    check(close(a.degree(), b), "from_polar keeps the angle")


def vector_pairs(x: Real, y: Real, p: Real, q: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    v.dist(w), v.dist2(w)
    _vec(v, x, y, "distance keeps the receiver")
    _vec(w, p, q, "distance keeps the argument")
    v.inner_product(w), v.outer_product(w)
    Vector2D.inner_product_static(v, w), Vector2D.outer_product_static(v, w)
    _vec(v, x, y, "products keep the receiver")
    _vec(w, p, q, "products keep the argument")
    v.equals(w), v.equals_weakly(w), v == w, v != w
    _vec(v, x, y, "comparison keeps the receiver")
    _vec(w, p, q, "comparison keeps the argument")
    v + w
    v - w
    _vec(v, x, y, "sum and difference keep the receiver")
    _vec(w, p, q, "sum and difference keep the argument")


def vector_arguments(x: Real, y: Real, p: Real, q: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    v.add(w)
    _vec(w, p, q, "add keeps its argument")
    v.sub(w)
    _vec(w, p, q, "sub keeps its argument")
    v.set_vector(w)
    _vec(w, p, q, "set_vector keeps its argument")
    v += w
    _vec(w, p, q, "+= keeps its argument")
    v -= w
    _vec(w, p, q, "-= keeps its argument")


# ------------------------------------------------------------------- angles
def angle_queries(d: Deg):
    a = AngleDeg(d)
    k = a.degree()
    a.degree(), a.degree_(), a.abs(), a.radian(), a.get_normalized(), float(a), repr(a)
    check(close(a.degree(), k), "accessors")
    a.cos(), a.sin(), a.tan()
    check(close(a.degree(), k), "trigonometry")
    a.copy(), a.reverse_angle(), -a, AngleDeg(a)
    check(close(a.degree(), k), "copies, negation and reversal")


def angle_pairs(d: Deg, e: Deg):
    a = AngleDeg(d)
    b = AngleDeg(e)
    k = a.degree()
    m = b.degree()
    a + b
    a - b
    a * 2.0
    a // 2.0
    check(close((a.degree(), b.degree()), (k, m)), "binary operators")
    a == b
    a != b
    a.is_left_of(b), a.is_right_of(b), a.is_left_equal_of(b), a.is_right_equal_of(b)
    check(close((a.degree(), b.degree()), (k, m)), "comparisons")
    AngleDeg.bisect(a, b)
    check(close((a.degree(), b.degree()), (k, m)), "bisect")
    c = AngleDeg(e)
    c += a
    check(close(a.degree(), k), "+= keeps its argument")
    c -= a
    check(close(a.degree(), k), "-= keeps its argument")
    c.set_angle(a)
    check(close(a.degree(), k), "set_angle keeps its argument")


def angle_within(d: Deg, e: Deg, f: Deg):
    a = AngleDeg(d)
    b = AngleDeg(e)
    c = AngleDeg(f)
    m = (a.degree(), b.degree(), c.degree())
    a.is_within(b, c)
    check(close((a.degree(), b.degree(), c.degree()), m), "is_within")


# -------------------------------------------------------------------- lines
def line_queries(p: Real, q: Real, r: Real, x: Real, y: Real):
    n = Line2D(p, q, r)
    m = (n.a(), n.b(), n.c())
    v = Vector2D(x, y)
    n.get_x(y), n.get_y(x)
    _line(n, m, "get_x and get_y")
    n.copy(), repr(n)
    _line(n, m, "copy and representation")
    if p != 0.0:
        n.dist(v), n.dist2(v)
        _line(n, m, "distance keeps the line")
        _vec(v, x, y, "distance keeps the point")
        n.perpendicular(v)
        _line(n, m, "perpendicular keeps the line")
        _vec(v, x, y, "perpendicular keeps the point")
        n.projection(v)
        _line(n, m, "projection keeps the line")
        _vec(v, x, y, "projection keeps the point")


def line_pairs(p: Real, q: Real, r: Real, s: Real, t: Real, u: Real):
    n = Line2D(p, q, r)
    o = Line2D(s, t, u)
    m = (n.a(), n.b(), n.c())
    k = (o.a(), o.b(), o.c())
    n.is_parallel(o)
    n == o
    n.intersection(o), Line2D.line_intersection(n, o)
    _line(n, m, "intersection keeps the receiver")
    _line(o, k, "intersection keeps the argument")


def line_arguments(x: Real, y: Real, p: Real, q: Real, d: Deg, e: Deg):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    a = AngleDeg(d)
    b = AngleDeg(e)
    m = (a.degree(), b.degree())
    Line2D(v, w), Line2D(p1=v, p2=w)
    _vec(v, x, y, "a line through two points keeps the first")
    _vec(w, p, q, "a line through two points keeps the second")
    Line2D(v, a)
    Line2D.angle_bisector(v, a, b)
    _vec(v, x, y, "a line through a point keeps the point")
    check(close((a.degree(), b.degree()), m), "a line along angles keeps the angles")
    if x != p and y != q:
        Line2D.perpendicular_bisector(v, w)
        _vec(v, x, y, "perpendicular_bisector keeps the first point")
        _vec(w, p, q, "perpendicular_bisector keeps the second point")


# --------------------------------------------------------------------- rays
def _ray(r, x, y, d, what):
    _vec(r.origin(), x, y, what + " (origin)")
    check(close(r.dir().degree(), d), what + " (direction)")


def ray_queries(x: Real, y: Real, d: DegOpen, p: Real, q: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    r = Ray2D(v, AngleDeg(d))
    r.line(), r.copy(), repr(r)
    _ray(r, x, y, d, "line and copy")
    r.in_right_dir(w), r.in_right_dir(w, 5.0)
    _ray(r, x, y, d, "in_right_dir keeps the ray")
    _vec(w, p, q, "in_right_dir keeps the point")
    Ray2D(v, w)
    _vec(v, x, y, "a ray keeps the origin it is given")
    _vec(w, p, q, "a ray keeps the point it is directed to")
    r == Ray2D(v, d)
    _ray(r, x, y, d, "comparison")


def ray_line(x: Real, y: Real, d: DegOpen, p: Real, q: Real, c: Real):
    r = Ray2D(Vector2D(x, y), AngleDeg(d))
    n = Line2D(p, q, c)
    m = (n.a(), n.b(), n.c())
    r.intersection(n)
    _ray(r, x, y, d, "intersection with a line keeps the ray")
    _line(n, m, "intersection with a line keeps the line")


def ray_ray(x: Real, y: Real, d: DegOpen, p: Real, q: Real, e: DegOpen):
    r = Ray2D(Vector2D(x, y), AngleDeg(d))
    s = Ray2D(Vector2D(p, q), AngleDeg(e))
    r.intersection(s)
    _ray(r, x, y, d, "intersection of rays keeps the receiver")
    _ray(s, p, q, e, "intersection of rays keeps the argument")


# ----------------------------------------------------------------- segments
def segment_queries(x: Real, y: Real, p: Real, q: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    s = Segment2D(v, w)
    m = (x, y, p, q)
    s.is_valid(), s.length(), s.direction()
    _seg(s, m, "measures")
    s.origin(), s.terminal(), s.copy(), s.reversed_segment(), repr(s)
    _seg(s, m, "accessors and copies")
    if x != p and y != q:
        s.line()
        _seg(s, m, "line")
        s.perpendicular_bisector()
        _seg(s, m, "perpendicular_bisector")
    _vec(v, x, y, "a segment keeps the origin it is given")
    _vec(w, p, q, "a segment keeps the terminal it is given")


def segment_point(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    v = Vector2D(a, b)
    m = (x, y, p, q)
    s.contains(v), s.on_segment(v), s.on_segment_weakly(v), s.check_intersects_on_line(v)
    _seg(s, m, "containment keeps the segment")
    _vec(v, a, b, "containment keeps the point")
    s.projection(v)
    _seg(s, m, "projection keeps the segment")
    _vec(v, a, b, "projection keeps the point")
    s.nearest_point(v)
    _seg(s, m, "nearest_point keeps the segment")
    _vec(v, a, b, "nearest_point keeps the point")
    s.dist(v), s.farthest_dist(v)
    _seg(s, m, "distance keeps the segment")
    _vec(v, a, b, "distance keeps the point")


def segment_pairs(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real, c: Real, d: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    t = Segment2D(Vector2D(a, b), Vector2D(c, d))
    m = (x, y, p, q)
    k = (a, b, c, d)
    s == t
    s.equals_weakly(t)
    _seg(s, m, "comparison keeps the receiver")
    _seg(t, k, "comparison keeps the argument")


def segment_exist(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real, c: Real, d: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    t = Segment2D(Vector2D(a, b), Vector2D(c, d))
    m = (x, y, p, q)
    k = (a, b, c, d)
    s.exist_intersection(t)
    _seg(s, m, "exist_intersection keeps the receiver")
    _seg(t, k, "exist_intersection keeps the argument")


def segment_except(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real, c: Real, d: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    t = Segment2D(Vector2D(a, b), Vector2D(c, d))
    m = (x, y, p, q)
    k = (a, b, c, d)
    s.exist_intersection_except_endpoint(t), s.intersects_except_endpoint(t)
    _seg(s, m, "exist_intersection_except_endpoint keeps the receiver")
    _seg(t, k, "exist_intersection_except_endpoint keeps the argument")


def segment_cross(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real, c: Real, d: Real):
    assume(x != p and a != c)
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    t = Segment2D(Vector2D(a, b), Vector2D(c, d))
    m = (x, y, p, q)
    k = (a, b, c, d)
    s.intersection(t)
    _seg(s, m, "intersection keeps the receiver")
    _seg(t, k, "intersection keeps the argument")


def segment_line(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real, c: Real):
    assume(x != p)
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    n = Line2D(a, b, c)
    m = (x, y, p, q)
    k = (n.a(), n.b(), n.c())
    s.intersection(n)
    _seg(s, m, "intersection with a line keeps the segment")
    _line(n, k, "intersection with a line keeps the line")
    s.exist_intersection(n)
    _seg(s, m, "exist_intersection with a line keeps the segment")
    _line(n, k, "exist_intersection with a line keeps the line")


def segment_dist(x: Real, y: Real, p: Real, a: Real, b: Real, d: Real):
    """a horizontal and a vertical segment"""
    s = Segment2D(Vector2D(x, y), Vector2D(p, y))
    t = Segment2D(Vector2D(a, b), Vector2D(a, d))
    s.dist(t)
    _seg(s, (x, y, p, y), "the distance of segments keeps the receiver")
    _seg(t, (a, b, a, d), "the distance of segments keeps the argument")


# ---------------------------------------------------------------- triangles
def triangle_queries(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real, u: Real, w: Real):
    t = Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    m = (x, y, p, q, a, b)
    v = Vector2D(u, w)
    t.is_valid(), t.a(), t.b(), t.c(), repr(t)
    _tri(t, m, "accessors")
    t.area(), t.signed_area(), t.double_signed_area(), t.ccw()
    _tri(t, m, "areas")
    t.contains(v)
    _tri(t, m, "containment keeps the triangle")
    _vec(v, u, w, "containment keeps the point")
    t.centroid()
    _tri(t, m, "centroid")


def triangle_centres(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    t = Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    m = (x, y, p, q, a, b)
    t.circumcenter()
    _tri(t, m, "circumcenter")
    if y != q and q != b and y != b:
        t.orthocenter()
        _tri(t, m, "orthocenter")


def triangle_incenter(x: Real, y: Real):
    t = Triangle2D(Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y))
    m = (0.0, 0.0, 4.0, 0.0, x, y)
    t.incenter()
    _tri(t, m, "incenter")


def triangle_static(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real, u: Real, w: Real):
    c0 = Vector2D(x, y)
    c1 = Vector2D(p, q)
    c2 = Vector2D(a, b)
    v = Vector2D(u, w)
    Triangle2D(c0, c1, c2)
    Triangle2D.double_signed_area_st(c0, c1, c2), Triangle2D.signed_area_st(c0, c1, c2), Triangle2D.tri_ccw(c0, c1, c2)
    Triangle2D.tri_contains(c0, c1, c2, v)
    Triangle2D.tri_centroid(c0, c1, c2), Triangle2D.tri_circumcenter(c0, c1, c2)
    Circle2D.circum_circle_contains(v, c0, c1, c2)
    _vec(c0, x, y, "the static triangle functions keep the first corner")
    _vec(c1, p, q, "the static triangle functions keep the second corner")
    _vec(c2, a, b, "the static triangle functions keep the third corner")
    _vec(v, u, w, "the static triangle functions keep the point")


def triangle_cross(y: Real, a: Real, b: Real):
    t = Triangle2D(Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0))
    m = (0.0, 0.0, 4.0, 0.0, 0.0, 4.0)
    n = Line2D(0.0, 1.0, -y)
    t.intersection(n)
    _tri(t, m, "intersection with a line keeps the triangle")
    _line(n, (0.0, 1.0, -y), "intersection with a line keeps the line")
    r = Ray2D(Vector2D(a, y), AngleDeg(0.0))
    t.intersection(r)
    _tri(t, m, "intersection with a ray keeps the triangle")
    _ray(r, a, y, 0.0, "intersection with a ray keeps the ray")
    s = Segment2D(Vector2D(a, y), Vector2D(b, y))
    t.intersection(s)
    _tri(t, m, "intersection with a segment keeps the triangle")
    _seg(s, (a, y, b, y), "intersection with a segment keeps the segment")


# --------------------------------------------------------------- rectangles
def rect_queries(x: Real, y: Real, l: NonNeg, w: NonNeg, a: Real, b: Real, e: Pos):
    r = Rect2D(x, y, l, w)
    m = (x, y, l, w)
    v = Vector2D(a, b)
    r.is_valid(), r.area(), repr(r), r.to_str("")
    _rect(r, m, "area, validity and representation")
    r.left(), r.right(), r.top(), r.bottom(), r.min_x(), r.max_x(), r.min_y(), r.max_y(), r.size()
    _rect(r, m, "edges")
    r.center(), r.top_left(), r.top_right(), r.bottom_left(), r.bottom_right()
    _rect(r, m, "corners and centre")
    r.contains(v), r.contains_almost(v, e)
    _rect(r, m, "containment keeps the rectangle")
    _vec(v, a, b, "containment keeps the point")
    if l > 0.0 and w > 0.0:
        r.left_edge(), r.right_edge(), r.top_edge(), r.bottom_edge()
    _rect(r, m, "edge lines")


def rect_pairs(x: Real, y: Real, l: NonNeg, w: NonNeg, a: Real, b: Real, c: NonNeg, d: NonNeg):
    r = Rect2D(x, y, l, w)
    s = Rect2D(a, b, c, d)
    r.intersected(s)
    _rect(r, (x, y, l, w), "intersected keeps the receiver")
    _rect(s, (a, b, c, d), "intersected keeps the argument")
    r.united(s)
    _rect(r, (x, y, l, w), "united keeps the receiver")
    _rect(s, (a, b, c, d), "united keeps the argument")


def rect_arguments(x: Real, y: Real, l: NonNeg, w: NonNeg):
    v = Vector2D(x, y)
    z = Size2D(l, w)
    u = Vector2D(x + l, y + w)
    Rect2D(v, z), Rect2D(v, u), Rect2D.from_center(v, l, w)
    r = Rect2D(0.0, 0.0, 1.0, 1.0)
    r.assign(v, z)
    r.assign(v, u)
    r.move_center(v)
    r.move_top_left(v)
    r.move_bottom_right(v)
    r.set_top_left(v)
    r.set_bottom_right(u)
    r.set_size(z)
    _vec(v, x, y, "rectangle constructors and setters keep the point")
    _vec(u, x + l, y + w, "rectangle constructors and setters keep the second point")
    check(close((z.length(), z.width()), (l, w)), "rectangle constructors and setters keep the size")


def rect_cross(y: Real, a: Real, b: Real):
    r = Rect2D(0.0, 0.0, 4.0, 2.0)
    m = (0.0, 0.0, 4.0, 2.0)
    n = Line2D(0.0, 1.0, -y)
    r.intersection(n)
    _rect(r, m, "intersection with a line keeps the rectangle")
    _line(n, (0.0, 1.0, -y), "intersection with a line keeps the line")
    k = Ray2D(Vector2D(a, y), AngleDeg(0.0))
    r.intersection(k)
    _rect(r, m, "intersection with a ray keeps the rectangle")
    _ray(k, a, y, 0.0, "intersection with a ray keeps the ray")
    s = Segment2D(Vector2D(a, y), Vector2D(b, y))
    r.intersection(s)
    _rect(r, m, "intersection with a segment keeps the rectangle")
    _seg(s, (a, y, b, y), "intersection with a segment keeps the segment")


def size_queries(l: NonNeg, w: NonNeg, a: NonNeg, b: NonNeg):
    s = Size2D(l, w)
    t = Size2D(a, b)
    s.diagonal(), s.is_valid(), repr(s), s == t
    check(close((s.length(), s.width()), (l, w)), "size queries keep the receiver")
    check(close((t.length(), t.width()), (a, b)), "size queries keep the argument")


# ------------------------------------------------------------------ circles
def _circle(c, x, y, r, what):
    _vec(c.center(), x, y, what + " (centre)")
    check(close(c.radius(), r), what + " (radius)")


def circle_queries(x: Real, y: Real, r: NonNeg, a: Real, b: Real):
    o = Vector2D(x, y)
    c = Circle2D(o, r)
    v = Vector2D(a, b)
    c.area(), c.center(), c.radius(), repr(c)
    _circle(c, x, y, r, "accessors")
    c.contains(v)
    _circle(c, x, y, r, "containment")
    _vec(v, a, b, "containment keeps the point")
    _vec(o, x, y, "a circle keeps the centre it is given")


def circle_line(x: Real, y: Real, r: NonNeg, p: Real, q: Real, k: Real):
    c = Circle2D(Vector2D(x, y), r)
    n = Line2D(p, q, k)
    m = (n.a(), n.b(), n.c())
    c.intersection(n), c.intersection_with_line(n)
    _circle(c, x, y, r, "intersection with a line")
    _line(n, m, "intersection with a line keeps the line")


def circle_ray(x: Real, y: Real, r: NonNeg, p: Real, q: Real):
    c = Circle2D(Vector2D(x, y), r)
    k = Ray2D(Vector2D(p, q), AngleDeg(0.0))
    c.intersection(k), c.intersection_with_ray(k)
    _circle(c, x, y, r, "intersection with a ray")
    _ray(k, p, q, 0.0, "intersection with a ray keeps the ray")


def circle_segment(x: Real, y: Real, r: NonNeg, p: Real, q: Real, k: Real):
    assume(abs(p - k) > 0.001)
    c = Circle2D(Vector2D(x, y), r)
    s = Segment2D(Vector2D(p, q), Vector2D(k, q))
    c.intersection(s), c.intersection_with_segment(s)
    _circle(c, x, y, r, "intersection with a segment")
    _seg(s, (p, q, k, q), "intersection with a segment keeps the segment")


def circle_circle(x: Real, y: Real, r: NonNeg, p: Real, q: Real, k: Pos):
    c = Circle2D(Vector2D(x, y), r)
    d = Circle2D(Vector2D(p, q), k)
    c.intersection(d), c.intersection_with_circle(d)
    _circle(c, x, y, r, "intersection of circles keeps the receiver")
    _circle(d, p, q, k, "intersection of circles keeps the argument")


# ------------------------------------------------------------------ sectors
def sector_queries(x: Real, y: Real, r: Pos, s: Pos, d: DegOpen, e: DegOpen, a: Real, b: Real):
    o = Vector2D(x, y)
    f = AngleDeg(d)
    g = AngleDeg(e)
    k = Sector2D(o, r, s, f, g)
    m = (k.radius_min(), k.radius_max(), d, e)
    v = Vector2D(a, b)
    k.area(), k.get_circumference_min(), k.get_circumference_max(), repr(k)
    k.contains(v)
    k == Sector2D(v, r, s, g, f)
    _vec(k.center(), x, y, "the centre")
    check(close((k.radius_min(), k.radius_max(), k.angle_left_start().degree(), k.angle_right_end().degree()), m),
          "radii and angles")
    _vec(v, a, b, "containment keeps the point")
    _vec(o, x, y, "a sector keeps the centre it is given")
    check(close((f.degree(), g.degree()), (d, e)), "a sector keeps the angles it is given")


# ----------------------------------------------------------------- polygons
def _points(l, m, what):
    check(len(l) == len(m), what + " (number)")
    for v, (x, y) in zip(l, m):
        _vec(v, x, y, what)


def polygon_queries(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    m = ((x, y), (p, q), (a, b))
    ps = [Vector2D(x, y), Vector2D(p, q), Vector2D(a, b)]
    g = Polygon2D(ps)
    g.vertices(), g.area(), g.double_signed_area(), g.is_clockwise(), g.is_counter_clockwise()
    _points(g.vertices(), m, "areas and orientation")
    g.get_bounding_box(), g.bounding_box_center(), repr(g)
    _points(g.vertices(), m, "bounding box")
    _points(ps, m, "a polygon keeps the list it is given")


def polygon_point(x: Real, y: Real):
    m = ((0.0, 0.0), (4.0, 0.0), (0.0, 4.0))
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0)])
    v = Vector2D(x, y)
    g.contains(v), g.contains(v, False)
    _points(g.vertices(), m, "containment keeps the polygon")
    _vec(v, x, y, "containment keeps the point")


def polygon_dist(x: Real, y: Real):
    m = ((0.0, 0.0), (4.0, 0.0), (0.0, 4.0))
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0)])
    v = Vector2D(x, y)
    g.dist(v), g.dist(v, False)
    _points(g.vertices(), m, "distance keeps the polygon")
    _vec(v, x, y, "distance keeps the point")


def _kept(g, m, v, x, y):
    g.contains(v), g.contains(v, False), g.dist(v), g.dist(v, False), g.area(), g.is_clockwise(), g.get_bounding_box()
    _points(g.vertices(), m, "queries keep the polygon")
    _vec(v, x, y, "queries keep the point")


def polygon_clockwise(x: Real, y: Real):
    m = ((0.0, 0.0), (0.0, 4.0), (4.0, 0.0))
    _kept(Polygon2D([Vector2D(a, b) for a, b in m]), m, Vector2D(x, y), x, y)


def polygon_notched(y: Real):
    """clockwise, not convex, a repeated vertex and the first one given again at the end"""
    m = ((0.0, 0.0), (0.0, 4.0), (2.0, 1.0), (2.0, 1.0), (4.0, 4.0), (4.0, 0.0), (0.0, 0.0))
    _kept(Polygon2D([Vector2D(a, b) for a, b in m]), m, Vector2D(1.0, y), 1.0, y)


def polygon_collinear(x: Real, y: Real):
    m = ((0.0, 0.0), (2.0, 0.0), (4.0, 0.0))
    _kept(Polygon2D([Vector2D(a, b) for a, b in m]), m, Vector2D(x, y), x, y)


def polygon_any_clip(p: Vec, q: Vec, r: Vec):
    """any triangle, in either direction"""
    m = ((p.x(), p.y()), (q.x(), q.y()), (r.x(), r.y()))
    g = Polygon2D([p, q, r])
    g.is_clockwise(), g.area(), g.is_counter_clockwise(), g.bounding_box_center(), repr(g), g.vertices()
    _points(g.vertices(), m, "queries keep any triangle")


def polygon_clip(x: Real, y: Real, k: Real):
    m = ((0.0, 0.0), (4.0, 1.0), (x, y))
    ps = [Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(x, y)]
    n = Line2D(1.0, 0.0, -k)
    Polygon2D.get_line_clipped_polygon(XLessEqual(k), ps, n)
    _points(ps, m, "clipping keeps the points")
    _line(n, (1.0, 0.0, -k), "clipping keeps the line")


def polygon_clip_rect(k: Pos):
    m = ((0.0, 0.0), (4.0, 1.0), (2.0, 5.0))
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(2.0, 5.0)])
    r = Rect2D(1.0, 0.5, k, 2.0)
    g.get_rectangle_clipped_polygon(r)
    _points(g.vertices(), m, "clipping keeps the polygon")
    _rect(r, (1.0, 0.5, k, 2.0), "clipping keeps the rectangle")


def polygon_clip_rect_clockwise(k: Pos):
    m = ((2.0, 5.0), (4.0, 1.0), (0.0, 0.0))
    g = Polygon2D([Vector2D(a, b) for a, b in m])
    r = Rect2D(1.0, 0.5, k, 2.0)
    g.get_rectangle_clipped_polygon(r)
    _points(g.vertices(), m, "clipping keeps a clockwise polygon")
    _rect(r, (1.0, 0.5, k, 2.0), "clipping keeps the rectangle")


def _clip_kept(m, k):
    ps = [Vector2D(a, b) for a, b in m]
    g = Polygon2D(ps)
    r = Rect2D(-1.0, -1.0, k, 3.0)
    g.get_rectangle_clipped_polygon(r)
    _points(g.vertices(), m, "clipping by a rectangle keeps the polygon")
    n = Line2D(1.0, 0.0, -k)
    Polygon2D.get_line_clipped_polygon(XLessEqual(k), ps, n)
    Polygon2D.get_line_clipped_polygon(XMoreEqual(k), ps, n)
    n = Line2D(0.0, 1.0, -k)
    Polygon2D.get_line_clipped_polygon(YLessEqual(k), ps, n)
    Polygon2D.get_line_clipped_polygon(YMoreEqual(k), ps, n)
    _points(ps, m, "clipping by a line keeps the points")


def clip_closed(k: Pos):
    """the first vertex is given again at the end"""
    _clip_kept(((0.0, 0.0), (4.0, 1.0), (2.0, 5.0), (0.0, 0.0)), k)


def clip_repeated(k: Pos):
    _clip_kept(((0.0, 0.0), (4.0, 1.0), (4.0, 1.0), (2.0, 5.0)), k)


def clip_square(k: Pos):
    _clip_kept(((0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)), k)


def clip_two(k: Pos):
    _clip_kept(((0.0, 0.0), (4.0, 1.0)), k)


def clip_one(k: Pos):
    _clip_kept(((0.5, 0.0),), k)


def polygon_two(x: Real, y: Real, p: Real, q: Real):
    m = ((0.0, 0.0), (p, q))
    _kept(Polygon2D([Vector2D(a, b) for a, b in m]), m, Vector2D(x, y), x, y)


def polygon_one(x: Real, y: Real, p: Real, q: Real):
    m = ((p, q),)
    _kept(Polygon2D([Vector2D(a, b) for a, b in m]), m, Vector2D(x, y), x, y)


def polygon_none(x: Real, y: Real):
    g = Polygon2D([])
    v = Vector2D(x, y)
    g.contains(v), g.area(), g.is_clockwise(), g.get_bounding_box(), g.vertices()
    check(len(g.vertices()) == 0, "queries keep an empty polygon")


def polygon_level(x: Real, y: Real):
    """vertices and edges at the height of the point"""
    m = ((0.0, y), (2.0, y), (4.0, 0.0), (3.0, -5.0))
    _kept(Polygon2D([Vector2D(a, b) for a, b in m]), m, Vector2D(x, y), x, y)


# ------------------------------------------------------- operands that coincide
def rect_point(x: Real, y: Real, l: NonNeg, w: NonNeg):
    """rectangles without area"""
    assume(l < 0.000001 or w < 0.000001)
    m = (x, y, l, w)
    r = Rect2D(x, y, l, w)
    r.is_valid(), r.area(), r.center(), r.contains(Vector2D(x, y)), r.contains_almost(Vector2D(x, y), 0.1)
    _rect(r, m, "queries keep an empty rectangle")
    s = Rect2D(x + 1.0, y, 3.0, 4.0)
    r.intersected(s), s.intersected(r), r.united(s), s.united(r), r.intersected(r), r.united(r), s.intersected(s), s.united(s)
    _rect(r, m, "combining keeps an empty rectangle")
    _rect(s, (x + 1.0, y, 3.0, 4.0), "combining with an empty rectangle")


def rect_empty_cross(x: Real, y: Real, l: NonNeg, k: Real):
    m = (x, y, l, 0.0)
    r = Rect2D(x, y, l, 0.0)
    n = Line2D(1.0, 0.0, k)
    r.intersection(n)
    _rect(r, m, "a line across keeps an empty rectangle")
    _line(n, (1.0, 0.0, k), "an empty rectangle keeps the line")


def segment_point_again(x: Real, y: Real, p: Real, q: Real):
    """a segment of one point"""
    s = Segment2D(Vector2D(x, y), Vector2D(x, y))
    v = Vector2D(p, q)
    t = Segment2D(Vector2D(p, q), Vector2D(p + 1.0, q))
    s.is_valid(), s.length(), s.direction(), s.copy(), s.reversed_segment(), repr(s)
    s.nearest_point(v), s.projection(v), s.dist(v), s.farthest_dist(v), s.on_segment(v), s.on_segment_weakly(v), s.contains(v)
    s.exist_intersection(t), t.exist_intersection(s), s.dist(t), t.dist(s), s.intersection(t), s.intersects_except_endpoint(t)
    s == t, s.equals_weakly(t), s.exist_intersection(s), s.dist(s)
    _seg(s, (x, y, x, y), "queries keep a segment of one point")
    _seg(t, (p, q, p + 1.0, q), "queries with a segment of one point")
    _vec(v, p, q, "queries with a segment of one point keep the point")


def segment_itself(x: Real, y: Real, p: Real, q: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    s == s, s.equals_weakly(s), s.exist_intersection(s), s.dist(s), s.intersection(s), s.intersects_except_endpoint(s)
    s.dist(s.origin_()), s.nearest_point(s.terminal_()), s.projection(s.origin_()), s.on_segment(s.terminal_())
    _seg(s, (x, y, p, q), "a segment with itself")


def ray_itself(x: Real, y: Real):
    r = Ray2D(Vector2D(x, y), AngleDeg(0.0))
    r == r, r.intersection(r), r.in_right_dir(r.origin_()), r.intersection(r.line())
    _ray(r, x, y, 0.0, "a ray with itself")


def triangle_point(x: Real, y: Real, p: Real, q: Real):
    t = Triangle2D(Vector2D(x, y), Vector2D(x, y), Vector2D(p, q))
    v = Vector2D(p, q)
    t.is_valid(), t.area(), t.ccw(), t.contains(v), t.centroid(), t.orthocenter(), t.contains(t.a_())
    _tri(t, (x, y, x, y, p, q), "queries keep a triangle without area")
    _vec(v, p, q, "queries with a triangle without area")


# ----------------------------------------------------------------- matrices
def _mat(k, m, what):
    check(close((k.m11(), k.m12(), k.m21(), k.m22(), k.dxtf(), k.dytf()), m), what)


def matrix_queries(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, x: Real, y: Real):
    m = (a, b, c, d, e, f)
    k = Matrix2D(a, b, c, d, e, f)
    v = Vector2D(x, y)
    k.det(), k.invertible(), repr(k)
    _mat(k, m, "determinant")
    k.transform(v), k.transform(x, y), k * v
    _mat(k, m, "transform keeps the matrix")
    _vec(v, x, y, "transform keeps the vector")
    j = Matrix2D(b, a, d, c, f, e)
    k == j
    k * j
    _mat(k, m, "a product keeps the left operand")
    _mat(j, (b, a, d, c, f, e), "a product keeps the right operand")
    k *= j
    _mat(j, (b, a, d, c, f, e), "*= keeps its argument")


def matrix_inverse(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    k = Matrix2D(a, b, c, d, e, f)
    k.inverted()
    _mat(k, (a, b, c, d, e, f), "inverted")


def matrix_angle(a: Real, b: Real, d: DegOpen):
    g = AngleDeg(d)
    Matrix2D.make_rotation(g)
    k = Matrix2D(a, b, b, a, 1.0, 2.0)
    k.rotate(g)
    check(close(g.degree(), d), "rotation keeps the angle")


# ------------------------------------------------------------ soccer formulas
def soccer_vectors(x: Real, y: Real, p: Real, q: Real, n: Int, k: Frac):
    assume(n >= 0 and k > 0.1 and k < 0.9)
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    soccer_math.inertia_n_step_travel(v, n, k)
    soccer_math.inertia_n_step_point(w, v, n, k)
    soccer_math.inertia_final_travel(v, k)
    soccer_math.inertia_final_point(w, v, k)
    _vec(v, x, y, "inertia formulas keep the velocity")
    _vec(w, p, q, "inertia formulas keep the position")


# -------------------------------------------------------------- convex hulls
def hull_inputs(x: Real, y: Real):
    m = ((0.0, 0.0), (4.0, 0.0), (x, y))
    ps = [Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y)]
    assume(y > 0.01)
    h = ConvexHull(ps)
    h.compute(MethodType.WRAPPING_METHOD)
    h.to_polygon()
    _points(ps, m, "a hull keeps the list it is given")
    _points(h.input_points(), m, "computing a hull keeps its input points")


def _hull_queries(h, m, what):
    vs = h.vertices()
    es = h.edges()
    n, k = len(vs), len(es)
    ends = [(e.origin(), e.terminal()) for e in es]
    xy = [(v.x(), v.y()) for v in vs]
    h.to_polygon()
    h.vertices()
    h.edges()
    h.input_points()
    repr(h)
    h.get_min_point_index()
    ws = h.vertices()
    fs = h.edges()
    check(len(ws) == n and len(fs) == k, "queries of a hull keep the number of its vertices and edges" + what)
    for v, w, (x, y) in zip(vs, ws, xy):
        check(v is w and close((w.x(), w.y()), (x, y)), "queries of a hull keep its vertices" + what)
    for f, (o, t) in zip(fs, ends):
        check(f.origin() == o and f.terminal() == t, "queries of a hull keep its edges" + what)
    _points(h.input_points(), m, "queries of a hull keep its input points" + what)


def hull_queries(x: Real, y: Real):
    m = ((0.0, 0.0), (4.0, 0.0), (x, y))
    ps = [Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y)]
    assume(y > 0.01)
    h = ConvexHull(ps)
    h.compute(MethodType.WRAPPING_METHOD)
    _hull_queries(h, m, "")


def hull_queries_four(x: Real, y: Real):
    m = ((0.0, 0.0), (4.0, 0.0), (4.5, 4.0), (x, y))
    ps = [Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(4.5, 4.0), Vector2D(x, y)]
    assume(y > 0.01 and x < -0.01)
    h = ConvexHull(ps)
    h.compute(MethodType.WRAPPING_METHOD)
    _hull_queries(h, m, " (four points)")


def hull_queries_scan():
    m = ((0.0, 0.0), (1.0, 3.0), (4.5, 4.0), (3.0, 2.0), (4.0, 0.0))
    h = ConvexHull([Vector2D(x, y) for x, y in m])
    h.compute(MethodType.GRAHAN_SCAN)
    k = [(p.x(), p.y()) for p in h.input_points()]
    _hull_queries(h, k, " (scan)")
    h.compute(MethodType.DIRECT_METHOD)
    _hull_queries(h, k, " (direct)")
