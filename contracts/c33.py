"""an int gives the same result as the equal float"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.circle_2d import Circle2D, quadratic_f
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D, XLessEqual, XMoreEqual, YLessEqual, YMoreEqual
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.convex_hull import ConvexHull, MethodType
from pyrusgeom import soccer_math


def _xy(v, w, what):
    check(close((v.x(), v.y()), (w.x(), w.y())), what)


def _deg(a, b, what):
    check(close(a.degree(), b.degree()), what)


def _line(m, n, what):
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), what)


def _rect(r, s, what):
    check(close((r.left(), r.top(), r.right(), r.bottom()), (s.left(), s.top(), s.right(), s.bottom())), what)


def _mat(m, n, what):
    check(close((m.m11(), m.m12(), m.m21(), m.m22()), (n.m11(), n.m12(), n.m21(), n.m22())), what)
    check(close((m.dxtf(), m.dytf()), (n.dxtf(), n.dytf())), what + " (translation)")


# vectors

def vector_new(i: Int, j: Int):
    x = float(i)
    y = float(j)
    v = Vector2D(x, y)
    _xy(Vector2D(i, j), v, "two ints")
    _xy(Vector2D(i, y), v, "an int and a float")
    _xy(Vector2D(x, j), v, "a float and an int")
    _xy(Vector2D(x=i, y=j), v, "keyword ints")
    check(Vector2D(i, j) == v, "vectors of ints and floats are equal")
    check(hash(Vector2D(i, j)) == hash(v), "vectors of ints and floats have equal hashes")


def vector_sets(i: Int, j: Int):
    x = float(i)
    y = float(j)
    v = Vector2D(x, y)
    w = Vector2D()
    w.assign(i, j)
    _xy(w, v, "assign")
    w = Vector2D()
    w.set_x(i)
    w.set_y(j)
    _xy(w, v, "set_x, set_y")
    w = Vector2D()
    w.set_x_y(i, j)
    _xy(w, v, "set_x_y")
    w = Vector2D()
    w.add(i, j)
    _xy(w, v, "add")
    w = Vector2D()
    w.add(i, y)
    _xy(w, v, "add an int and a float")
    w.sub(i, j)
    _xy(w, Vector2D(), "sub")
    w.add_x(i)
    w.add_y(j)
    _xy(w, v, "add_x, add_y")
    w.sub_x(i)
    w.sub_y(j)
    _xy(w, Vector2D(), "sub_x, sub_y")


def vector_scale(p: Vec, i: Int):
    x = float(i)
    _xy(p * i, p * x, "* int")
    a = Vector2D(p)
    a *= i
    _xy(a, p * x, "*= int")
    a = Vector2D(p)
    a.scale(i)
    _xy(a, p * x, "scale int")
    assume(i != 0)
    _xy(p / i, p / x, "/ int")
    a = Vector2D(p)
    a /= i
    _xy(a, p / x, "/= int")


def vector_int_scale(i: Int, j: Int, k: Int):
    v = Vector2D(i, j)
    w = Vector2D(float(i), float(j))
    _xy(v * k, w * float(k), "ints * int")
    assume(k != 0)
    _xy(v / k, w / float(k), "ints / int")
    a = Vector2D(i, j)
    a /= k
    _xy(a, w / float(k), "ints /= int")


def vector_ops(i: Int, j: Int, p: Vec):
    v = Vector2D(i, j)
    w = Vector2D(float(i), float(j))
    _xy(v + p, w + p, "ints + floats")
    _xy(p + v, p + w, "floats + ints")
    _xy(v - p, w - p, "ints - floats")
    _xy(p - v, p - w, "floats - ints")
    check(close(v.r(), w.r()), "length of ints")
    check(close(v.dist(p), w.dist(p)), "distance of ints")
    check(close(v.inner_product(p), w.inner_product(p)), "inner product of ints")
    check(close(v.outer_product(p), w.outer_product(p)), "outer product of ints")
    check((v == p) == (w == p), "equality of ints")
    check(v.equals_weakly(p) == w.equals_weakly(p), "weak equality of ints")
    _xy(v.abs(), w.abs(), "abs of ints")
    _xy(v.reverse_vector(), w.reverse_vector(), "reverse of ints")


def vector_direction(i: Int, j: Int):
    _deg(Vector2D(i, j).th(), Vector2D(float(i), float(j)).th(), "direction of ints")


def vector_length(i: Int, j: Int, k: Int):
    v = Vector2D(i, j).set_length_vector(k)
    w = Vector2D(float(i), float(j)).set_length_vector(float(k))
    _xy(v, w, "set_length_vector of ints")


def vector_normal(i: Int, j: Int):
    _xy(Vector2D(i, j).normalize_vector(), Vector2D(float(i), float(j)).normalize_vector(), "normalize_vector of ints")


def vector_polar(r: Int, d: Int):
    v = Vector2D.from_polar(float(r), float(d))
    _xy(Vector2D.from_polar(r, d), v, "from_polar")
    _xy(Vector2D.polar2vector(r, d), v, "polar2vector")
    _xy(Vector2D(r=r, a=d), v, "polar keywords")
    w = Vector2D()
    w.set_polar(r, d)
    _xy(w, v, "set_polar")


def vector_rotate(i: Int, j: Int, d: Int):
    v = Vector2D(float(i), float(j)).rotated_vector(float(d))
    _xy(Vector2D(i, j).rotated_vector(d), v, "rotated_vector")
    w = Vector2D(i, j)
    w.rotate(d)
    _xy(w, v, "rotate")


def vector_set_dir(p: Vec, d: Int):
    v = Vector2D(p)
    v.set_dir(d)
    w = Vector2D(p)
    w.set_dir(float(d))
    _xy(v, w, "set_dir")


# angles

def angle_new(d: Int):
    a = AngleDeg(float(d))
    _deg(AngleDeg(d), a, "an int")
    b = AngleDeg()
    b.set_degree(d)
    _deg(b, a, "set_degree")
    check(close(AngleDeg.normalize_angle(d), AngleDeg.normalize_angle(float(d))), "normalize_angle")
    check(AngleDeg(d) == a, "angles of ints and floats are equal")


def angle_ops(a: Deg, d: Int):
    x = AngleDeg(a)
    f = float(d)
    _deg(x + d, x + f, "+ int")
    _deg(x - d, x - f, "- int")
    y = AngleDeg(a)
    y += d
    _deg(y, x + f, "+= int")
    y = AngleDeg(a)
    y -= d
    _deg(y, x - f, "-= int")


def angle_scale(a: Deg):
    x = AngleDeg(a)
    for k in (2, 3, -1, 4):
        f = float(k)
        _deg(x * k, x * f, "* int")
        y = AngleDeg(a)
        y *= k
        _deg(y, x * f, "*= int")
        y = AngleDeg(a)
        y /= k
        z = AngleDeg(a)
        z /= f
        _deg(y, z, "/= int")


def angle_relations(a: DegOpen, d: Int):
    assume(d > -180 and d < 180)
    x = AngleDeg(a)
    f = float(d)
    check(x.is_left_of(d) == x.is_left_of(f), "is_left_of int")
    check(x.is_right_of(d) == x.is_right_of(f), "is_right_of int")
    check(x.is_left_equal_of(d) == x.is_left_equal_of(f), "is_left_equal_of int")
    check(x.is_right_equal_of(d) == x.is_right_equal_of(f), "is_right_equal_of int")
    check((x == d) == (x == f), "== int")


def angle_within(a: DegOpen, d: Int, e: Int):
    assume(d > -180 and d < 180)
    assume(e > -180 and e < 180)
    check(AngleDeg(a).is_within(d, e) == AngleDeg(a).is_within(float(d), float(e)), "is_within of ints")


def angle_bisect(d: Int, e: Int):
    assume(d > -180 and d < 180)
    assume(e > -180 and e < 180)
    _deg(AngleDeg.bisect(d, e), AngleDeg.bisect(float(d), float(e)), "bisect of ints")


def angle_static(d: Int):
    check(close(AngleDeg.cos_deg(d), AngleDeg.cos_deg(float(d))), "cos_deg")
    check(close(AngleDeg.sin_deg(d), AngleDeg.sin_deg(float(d))), "sin_deg")
    check(close(AngleDeg.deg2rad(d), AngleDeg.deg2rad(float(d))), "deg2rad")
    check(close(AngleDeg.rad2deg(d), AngleDeg.rad2deg(float(d))), "rad2deg")


def angle_inverse(k: Int):
    check(close(AngleDeg.acos_deg(k), AngleDeg.acos_deg(float(k))), "acos_deg")
    check(close(AngleDeg.asin_deg(k), AngleDeg.asin_deg(float(k))), "asin_deg")
    check(close(AngleDeg.atan_deg(k), AngleDeg.atan_deg(float(k))), "atan_deg")


def angle_atan2(y: Int, x: Int):
    check(close(AngleDeg.atan2_deg(y, x), AngleDeg.atan2_deg(float(y), float(x))), "atan2_deg")


# lines

def line_new(i: Int, j: Int, k: Int):
    n = Line2D(float(i), float(j), float(k))
    _line(Line2D(i, j, k), n, "three ints")
    _line(Line2D(i, float(j), k), n, "ints and a float")
    _line(Line2D(a=i, b=j, c=k), n, "keyword ints")


def line_direction(p: Vec, d: Int):
    n = Line2D(p, float(d))
    _line(Line2D(p, d), n, "an int direction")
    _line(Line2D(p=p, a=d), n, "a keyword int direction")


def line_points(i: Int, j: Int, k: Int, m: Int):
    n = Line2D(Vector2D(float(i), float(j)), Vector2D(float(k), float(m)))
    _line(Line2D(Vector2D(i, j), Vector2D(k, m)), n, "points of ints")


def line_queries(i: Int, j: Int, k: Int, m: Int, p: Vec):
    n = Line2D(i, j, k)
    o = Line2D(float(i), float(j), float(k))
    check(close(n.get_x(m), o.get_x(float(m))), "get_x of ints")
    check(close(n.get_y(m), o.get_y(float(m))), "get_y of ints")
    _xy(n.projection(p), o.projection(p), "projection on a line of ints")
    _line(n.perpendicular(p), o.perpendicular(p), "perpendicular of a line of ints")


def line_intersection(i: Int, j: Int, k: Int, a: Real, b: Real, c: Real):
    m = Line2D(i, j, k).intersection(Line2D(a, b, c))
    n = Line2D(float(i), float(j), float(k)).intersection(Line2D(a, b, c))
    _xy(m, n, "the intersection with a line of ints")
    check(m.is_valid() == n.is_valid(), "the validity of the intersection with a line of ints")


def line_dist(i: Int, j: Int, k: Int, p: Vec):
    assume(i != 0 or j != 0)
    check(close(Line2D(i, j, k).dist(p), Line2D(float(i), float(j), float(k)).dist(p)), "the distance from a line of ints")


def line_bisector(i: Int, j: Int, k: Int, m: Int):
    a = Line2D.perpendicular_bisector(Vector2D(i, j), Vector2D(k, m))
    b = Line2D.perpendicular_bisector(Vector2D(float(i), float(j)), Vector2D(float(k), float(m)))
    _line(a, b, "the bisector of points of ints")


# rays and segments

def ray_new(p: Vec, d: Int):
    _deg(Ray2D(p, d).dir(), Ray2D(p, float(d)).dir(), "an int direction")
    _line(Ray2D(p, d).line(), Ray2D(p, float(d)).line(), "the line of an int direction")


def ray_points(i: Int, j: Int, d: Int):
    a = Ray2D(Vector2D(i, j), d)
    b = Ray2D(Vector2D(float(i), float(j)), float(d))
    _xy(a.origin(), b.origin(), "an origin of ints")
    _deg(a.dir(), b.dir(), "the direction of a ray of ints")


def segment_new(i: Int, j: Int, k: Int, m: Int):
    s = Segment2D(float(i), float(j), float(k), float(m))
    t = Segment2D(i, j, k, m)
    _xy(t.origin(), s.origin(), "the origin of four ints")
    _xy(t.terminal(), s.terminal(), "the terminal of four ints")
    check(t == s, "segments of ints and floats are equal")
    t = Segment2D()
    t.assign(i, j, k, m)
    check(t == s, "assign of four ints")
    t = Segment2D(Vector2D(i, j), Vector2D(k, m))
    check(t == s, "points of ints")
    t.assign(float(i), j, k, float(m))
    check(t == s, "assign of ints and floats")


def segment_polar(p: Vec, k: Int, d: Int):
    _xy(Segment2D(p, k, d).terminal(), Segment2D(p, float(k), float(d)).terminal(), "a polar segment")
    s = Segment2D()
    s.assign(p, k, d)
    _xy(s.terminal(), Segment2D(p, float(k), float(d)).terminal(), "an assigned polar segment")


def segment_queries(i: Int, j: Int, k: Int, m: Int, p: Vec):
    s = Segment2D(i, j, k, m)
    t = Segment2D(float(i), float(j), float(k), float(m))
    check(close(s.length(), t.length()), "length of ints")
    _xy(s.nearest_point(p), t.nearest_point(p), "nearest point of ints")
    _xy(s.projection(p), t.projection(p), "projection of ints")
    check(s.on_segment(p) == t.on_segment(p), "on_segment of ints")
    check(s.contains(p) == t.contains(p), "contains of ints")


def segment_crossing(i: Int, j: Int, k: Int, m: Int, p: Vec, q: Vec):
    s = Segment2D(i, j, k, m)
    t = Segment2D(float(i), float(j), float(k), float(m))
    o = Segment2D(p, q)
    check(s.exist_intersection(o) == t.exist_intersection(o), "exist_intersection of ints")


# triangles, circles, sectors

def triangle_new(i: Int, j: Int, k: Int, m: Int, p: Vec):
    t = Triangle2D(Vector2D(i, j), Vector2D(k, m), p)
    u = Triangle2D(Vector2D(float(i), float(j)), Vector2D(float(k), float(m)), p)
    check(close(t.signed_area(), u.signed_area()), "signed area of ints")
    _xy(t.centroid(), u.centroid(), "centroid of ints")
    check(t.ccw() == u.ccw(), "ccw of ints")


def triangle_ints(i: Int, j: Int, k: Int, m: Int, x: Int, y: Int):
    t = Triangle2D(Vector2D(i, j), Vector2D(k, m), Vector2D(x, y))
    u = Triangle2D(Vector2D(float(i), float(j)), Vector2D(float(k), float(m)), Vector2D(float(x), float(y)))
    check(close(t.area(), u.area()), "area of ints")
    _xy(t.centroid(), u.centroid(), "centroid of ints")
    _xy(t.orthocenter(), u.orthocenter(), "orthocenter of ints")


def circle_new(p: Vec, k: Int, x: Vec):
    c = Circle2D(p, k)
    d = Circle2D(p, float(k))
    check(close(c.radius(), d.radius()), "an int radius")
    check(close(c.area(), d.area()), "the area of an int radius")
    check(c.contains(x) == d.contains(x), "contains of an int radius")
    c.assign(x, k)
    check(close(c.radius(), d.radius()), "an assigned int radius")


def circle_line(i: Int, j: Int, k: Int, a: Int, b: Int, c: Int):
    s = Circle2D(Vector2D(i, j), k).intersection(Line2D(a, b, c))
    t = Circle2D(Vector2D(float(i), float(j)), float(k)).intersection(Line2D(float(a), float(b), float(c)))
    check(len(s) == len(t), "the number of intersections of ints")


def quadratic_ints(a: Int, b: Int, c: Int):
    assume(a != 0)
    s = quadratic_f(a, b, c)
    t = quadratic_f(float(a), float(b), float(c))
    check(len(s) == len(t), "the number of roots of ints")
    for i in range(len(s)):
        check(close(s[i], t[i]), "a root of ints")


def sector_new(p: Vec, m: Int, n: Int, d: Int, e: Int, x: Vec):
    s = Sector2D(p, m, n, d, e)
    t = Sector2D(p, float(m), float(n), float(d), float(e))
    check(close((s.radius_min(), s.radius_max()), (t.radius_min(), t.radius_max())), "int radii")
    _deg(s.angle_left_start(), t.angle_left_start(), "an int start")
    _deg(s.angle_right_end(), t.angle_right_end(), "an int end")
    s.assign(p, m, n, d, e)
    _deg(s.angle_left_start(), t.angle_left_start(), "an assigned int start")


def sector_area(m: Int, n: Int, d: Int, e: Int):
    assume(d > -180 and d < 180)
    assume(e > -180 and e < 180)
    o = Vector2D()
    s = Sector2D(o, m, n, d, e)
    t = Sector2D(o, float(m), float(n), float(d), float(e))
    check(close(s.area(), t.area()), "the area of ints")


# rectangles and sizes

def size_new(i: Int, j: Int):
    s = Size2D(float(i), float(j))
    check(Size2D(i, j) == s, "two ints")
    t = Size2D()
    t.assign(i, j)
    check(t == s, "assign ints")
    t = Size2D()
    t.set_length(i)
    t.set_width(j)
    check(t == s, "set_length, set_width of ints")
    check(Size2D(i, j).is_valid() == s.is_valid(), "validity of ints")


def rect_new(i: Int, j: Int, k: Int, m: Int):
    r = Rect2D(float(i), float(j), float(k), float(m))
    _rect(Rect2D(i, j, k, m), r, "four ints")
    _rect(Rect2D(Vector2D(i, j), k, m), r, "a point and two ints")
    _rect(Rect2D(Vector2D(i, j), Size2D(k, m)), r, "a point and a size of ints")
    s = Rect2D(Vector2D(), 1, 1)
    s.assign(i, j, k, m)
    _rect(s, r, "assign of four ints")
    s = Rect2D(Vector2D(), 1, 1)
    s.assign(Vector2D(i, j), k, m)
    _rect(s, r, "assign of a point and two ints")


def rect_corners(i: Int, j: Int, k: Int, m: Int):
    r = Rect2D(Vector2D(float(i), float(j)), Vector2D(float(k), float(m)))
    _rect(Rect2D(Vector2D(i, j), Vector2D(k, m)), r, "corners of ints")


def rect_center(i: Int, j: Int, k: Int, m: Int):
    r = Rect2D.from_center(float(i), float(j), float(k), float(m))
    _rect(Rect2D.from_center(i, j, k, m), r, "from_center of ints")
    _rect(Rect2D.from_center(Vector2D(i, j), k, m), r, "from_center of a point and ints")


def rect_moves(p: Vec, a: NonNeg, b: NonNeg, k: Int):
    f = float(k)
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.move_left(k)
    s.move_left(f)
    _rect(r, s, "move_left of an int")
    r.move_right(k)
    s.move_right(f)
    _rect(r, s, "move_right of an int")
    r.move_top(k)
    s.move_top(f)
    _rect(r, s, "move_top of an int")
    r.move_bottom(k)
    s.move_bottom(f)
    _rect(r, s, "move_bottom of an int")


def rect_sets(p: Vec, a: NonNeg, b: NonNeg, k: Int, m: Int):
    f = float(k)
    g = float(m)
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_top_left(k, m)
    s.set_top_left(f, g)
    _rect(r, s, "set_top_left of ints")
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_bottom_right(k, m)
    s.set_bottom_right(f, g)
    _rect(r, s, "set_bottom_right of ints")
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_size(k, m)
    s.set_size(f, g)
    _rect(r, s, "set_size of ints")


def rect_edges(p: Vec, a: NonNeg, b: NonNeg, k: Int):
    f = float(k)
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_left(k)
    s.set_left(f)
    _rect(r, s, "set_left of an int")
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_bottom(k)
    s.set_bottom(f)
    _rect(r, s, "set_bottom of an int")


def rect_contains(i: Int, j: Int, k: Int, m: Int, p: Vec):
    check(Rect2D(i, j, k, m).contains(p) == Rect2D(float(i), float(j), float(k), float(m)).contains(p),
          "contains of a rectangle of ints")
    check(Rect2D(0.0, 0.0, 4.0, 3.0).contains(Vector2D(i, j)) == Rect2D(0.0, 0.0, 4.0, 3.0).contains(Vector2D(float(i), float(j))),
          "contains of a point of ints")


# matrices

def matrix_new(a: Int, b: Int, c: Int, d: Int, x: Int, y: Int, p: Vec):
    m = Matrix2D(a, b, c, d, x, y)
    n = Matrix2D(float(a), float(b), float(c), float(d), float(x), float(y))
    _mat(m, n, "six ints")
    check(m == n, "matrices of ints and floats are equal")
    _xy(m.transform(p), n.transform(p), "transform of a matrix of ints")
    _xy(m.transform(a, b), n.transform(float(a), float(b)), "transform of ints")
    _mat(m.inverted(), n.inverted(), "the inverse of a matrix of ints")
    m = Matrix2D()
    m.assign(a, b, c, d, x, y)
    _mat(m, n, "assign of six ints")


def matrix_makers(i: Int, j: Int):
    _mat(Matrix2D.make_translation(i, j), Matrix2D.make_translation(float(i), float(j)), "make_translation of ints")
    _mat(Matrix2D.make_scaling(i, j), Matrix2D.make_scaling(float(i), float(j)), "make_scaling of ints")
    m = Matrix2D(1, 2, 3, 4, 5, 6)
    n = Matrix2D(1.0, 2.0, 3.0, 4.0, 5.0, 6.0)
    m.translate(i, j)
    n.translate(float(i), float(j))
    _mat(m, n, "translate of ints")
    m.scale(i, j)
    n.scale(float(i), float(j))
    _mat(m, n, "scale of ints")


# polygons

def polygon_ints(i: Int, j: Int, k: Int, m: Int, x: Int, y: Int):
    g = Polygon2D([Vector2D(i, j), Vector2D(k, m), Vector2D(x, y)])
    h = Polygon2D([Vector2D(float(i), float(j)), Vector2D(float(k), float(m)), Vector2D(float(x), float(y))])
    check(close(g.double_signed_area(), h.double_signed_area()), "signed area of ints")
    check(close(g.area(), h.area()), "area of ints")
    check(g.is_clockwise() == h.is_clockwise(), "orientation of ints")


def polygon_box(i: Int, j: Int, k: Int, m: Int):
    g = Polygon2D([Vector2D(i, j), Vector2D(k, m)])
    h = Polygon2D([Vector2D(float(i), float(j)), Vector2D(float(k), float(m))])
    _rect(g.get_bounding_box(), h.get_bounding_box(), "bounding box of ints")


def polygon_contains(i: Int, j: Int):
    g = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(4, 3)])
    h = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(4.0, 3.0)])
    check(g.contains(Vector2D(i, j)) == h.contains(Vector2D(float(i), float(j))), "contains of ints")


def thresholds(k: Int, p: Vec):
    f = float(k)
    check(XLessEqual(k)(p) == XLessEqual(f)(p), "XLessEqual of an int")
    check(XMoreEqual(k)(p) == XMoreEqual(f)(p), "XMoreEqual of an int")
    check(YLessEqual(k)(p) == YLessEqual(f)(p), "YLessEqual of an int")
    check(YMoreEqual(k)(p) == YMoreEqual(f)(p), "YMoreEqual of an int")


# soccer formulas

def soccer_bounds(i: Int, j: Int, k: Int):
    check(close(soccer_math.bound(i, j, k), soccer_math.bound(float(i), float(j), float(k))), "bound of ints")
    check(close(soccer_math.min_max(i, j, k), soccer_math.min_max(float(i), float(j), float(k))), "min_max of ints")
    check(close(soccer_math.r_int(i), soccer_math.r_int(float(i))), "r_int of an int")


def soccer_quantize(i: Int, j: Int):
    assume(j > 0)
    check(close(soccer_math.quantize(i, j), soccer_math.quantize(float(i), float(j))), "quantize of ints")


def soccer_rates(i: Int, j: Int):
    check(close(soccer_math.effective_turn(i, 2, 3), soccer_math.effective_turn(float(i), 2.0, 3.0)), "effective_turn of ints")
    check(close(soccer_math.dir_rate(i, 1, 2), soccer_math.dir_rate(float(i), 1.0, 2.0)), "dir_rate of ints")
    check(close(soccer_math.kick_rate(i, j, 1, 2, 3, 4), soccer_math.kick_rate(float(i), float(j), 1.0, 2.0, 3.0, 4.0)), "kick_rate of ints")
    check(close(soccer_math.final_speed(i, 1, 1, 0.5), soccer_math.final_speed(float(i), 1.0, 1.0, 0.5)), "final_speed of ints")


def soccer_inertia(i: Int, j: Int):
    v = Vector2D(i, j)
    w = Vector2D(float(i), float(j))
    _xy(soccer_math.inertia_n_step_travel(v, 3, 0.5), soccer_math.inertia_n_step_travel(w, 3, 0.5), "travel of ints")
    _xy(soccer_math.inertia_n_step_point(v, v, 3, 0.5), soccer_math.inertia_n_step_point(w, w, 3, 0.5), "point of ints")
    _xy(soccer_math.inertia_final_point(v, v, 0.5), soccer_math.inertia_final_point(w, w, 0.5), "final point of ints")
    check(close(soccer_math.inertia_n_step_distance(i, 3, 0.5), soccer_math.inertia_n_step_distance(float(i), 3, 0.5)), "distance of ints")
    check(close(soccer_math.inertia_final_distance(i, 0.5), soccer_math.inertia_final_distance(float(i), 0.5)), "final distance of ints")
