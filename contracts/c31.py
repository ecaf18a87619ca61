"""synonymous methods agree"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.convex_hull import ConvexHull, MethodType, AngleSortPredicate, angle_sort_predicate


def _xy(v, w, what):
    check(close((v.x(), v.y()), (w.x(), w.y())), what)
    check(v.is_valid() == w.is_valid(), what + " (validity)")


def _deg(a, b, what):
    check(close(a.degree(), b.degree()), what)


def _mat(m, n, what):
    check(close((m.m11(), m.m12(), m.m21(), m.m22()), (n.m11(), n.m12(), n.m21(), n.m22())), what)
    check(close((m.dxtf(), m.dytf()), (n.dxtf(), n.dytf())), what + " (translation)")


def _rect(r, s, what):
    check(close((r.left(), r.top(), r.right(), r.bottom()), (s.left(), s.top(), s.right(), s.bottom())), what)


# vectors

def vector_accessors(p: Vec):
    check(p.get_x() == p.x(), "get_x and x")
    check(p.get_y() == p.y(), "get_y and y")
    check(close(p.length(), p.r()), "length and r")
    check(close(p.length2(), p.r2()), "length2 and r2")
    _xy(p.get_copy(), p.copy(), "get_copy and copy")
    check(close(p.abs_x(), p.abs().x()), "abs_x and abs")
    check(close(p.abs_y(), p.abs().y()), "abs_y and abs")


def vector_direction(p: Vec):
    _deg(p.dir(), p.th(), "dir and th")
    check(close(p.th().degree(), AngleDeg.atan2_deg(p.y(), p.x())), "th and atan2_deg")


def vector_sets(p: Vec, x: Real, y: Real):
    q = Vector2D(p)
    p.assign(x, y)
    q.set_x_y(x, y)
    _xy(p, q, "assign and set_x_y")
    q = Vector2D()
    q.set_x(x)
    q.set_y(y)
    _xy(p, q, "assign and set_x, set_y")
    q = Vector2D()
    q.set_vector(p)
    _xy(p, q, "assign and set_vector")
    _xy(Vector2D(x=x, y=y), Vector2D(x, y), "keyword and positional coordinates")
    _xy(Vector2D(y=y, x=x), Vector2D(x, y), "keywords in the other order")


def vector_polar(r: Real, d: Deg):
    v = Vector2D.from_polar(r, d)
    _xy(Vector2D.polar2vector(r, d), v, "polar2vector and from_polar")
    _xy(Vector2D(r=r, a=d), v, "polar keywords and from_polar")
    w = Vector2D(3.0, 4.0)
    w.set_polar(r, d)
    _xy(w, v, "set_polar and from_polar")
    _xy(Vector2D.from_polar(r, AngleDeg(d)), v, "from_polar of an angle and of a number")
    w.set_polar(r, AngleDeg(d))
    _xy(w, v, "set_polar of an angle and of a number")
    _xy(Vector2D.polar2vector(r, AngleDeg(d)), v, "polar2vector of an angle and of a number")


def vector_add(p: Vec, q: Vec):
    s = p + q
    a = Vector2D(p)
    a.add(q)
    _xy(a, s, "add and +")
    a = Vector2D(p)
    a.add(q.x(), q.y())
    _xy(a, s, "add of coordinates and +")
    a = Vector2D(p)
    a += q
    _xy(a, s, "+= and +")
    a = Vector2D(p)
    a.add_x(q.x())
    a.add_y(q.y())
    _xy(a, s, "add_x, add_y and +")


def vector_sub(p: Vec, q: Vec):
    s = p - q
    a = Vector2D(p)
    a.sub(q)
    _xy(a, s, "sub and -")
    a = Vector2D(p)
    a.sub(q.x(), q.y())
    _xy(a, s, "sub of coordinates and -")
    a = Vector2D(p)
    a -= q
    _xy(a, s, "-= and -")
    a = Vector2D(p)
    a.sub_x(q.x())
    a.sub_y(q.y())
    _xy(a, s, "sub_x, sub_y and -")


def vector_scale(p: Vec, k: Real):
    s = p * k
    a = Vector2D(p)
    a.scale(k)
    _xy(a, s, "scale and *")
    a = Vector2D(p)
    a *= k
    _xy(a, s, "*= and *")


def vector_divide(p: Vec, k: Real):
    assume(k != 0.0)
    s = p / k
    a = Vector2D(p)
    a /= k
    _xy(a, s, "/= and /")
    _xy(p * (1.0 / k), s, "the inverse factor and /")


def vector_reverse(p: Vec):
    s = p.reverse_vector()
    a = Vector2D(p)
    a.reverse()
    _xy(a, s, "reverse and reverse_vector")
    _xy(p * -1.0, s, "* -1 and reverse_vector")


def vector_length(p: Vec, k: Real):
    s = p.set_length_vector(k)
    a = Vector2D(p)
    a.set_length(k)
    _xy(a, s, "set_length and set_length_vector")


def vector_normal(p: Vec):
    s = p.normalize_vector()
    a = Vector2D(p)
    a.normalize()
    _xy(a, s, "normalize and normalize_vector")
    _xy(p.set_length_vector(1.0), s, "set_length_vector(1) and normalize_vector")


def vector_rotation(p: Vec, d: Deg):
    s = p.rotated_vector(d)
    a = Vector2D(p)
    a.rotate(d)
    _xy(a, s, "rotate and rotated_vector")
    _xy(p.rotated_vector(AngleDeg(d)), s, "rotated_vector of an angle and of a number")
    a = Vector2D(p)
    a.rotate(AngleDeg(d))
    _xy(a, s, "rotate of an angle and of a number")
    a = Vector2D(p)
    a.set_dir(d)
    b = Vector2D(p)
    b.set_dir(AngleDeg(d))
    _xy(a, b, "set_dir of an angle and of a number")


def vector_products(p: Vec, q: Vec):
    check(close(Vector2D.inner_product_static(p, q), p.inner_product(q)), "static and instance inner product")
    check(close(Vector2D.outer_product_static(p, q), p.outer_product(q)), "static and instance outer product")
    check(p.equals(q) == (p == q), "equals and ==")


def vector_distance(p: Vec, q: Vec):
    check(close(p.dist(q), (p - q).r()), "dist and the length of the difference")
    check(close(p.dist2(q), (p - q).r2()), "dist2 and the squared length of the difference")
    check(close(p.dist(q), (q - p).length()), "dist and the length of the opposite difference")


# angles

def angle_accessors(d: Real):
    a = AngleDeg(d)
    check(close(a.degree_(), a.degree()), "degree_ and degree")
    check(close(float(a), a.degree()), "float and degree")
    _deg(a.copy(), a, "copy")
    _deg(AngleDeg(a), a, "an angle of an angle")
    b = AngleDeg()
    b.set_degree(d)
    _deg(b, a, "set_degree and the constructor")
    b = AngleDeg(12.0)
    b.set_angle(a)
    _deg(b, a, "set_angle and the constructor")
    n = AngleDeg.normalize_angle(d)
    check(close(n, a.degree()) or close(abs(n - a.degree()), 360.0), "normalize_angle and the constructor")


def angle_radian(a: Ang):
    check(close(a.radian(), AngleDeg.deg2rad(a.degree())), "radian and deg2rad")
    check(close(AngleDeg.rad2deg(a.radian()), a.degree()), "rad2deg and degree")


def angle_trig(d: Deg):
    check(close(AngleDeg.cos_deg(d), AngleDeg(d).cos()), "cos_deg and cos")
    check(close(AngleDeg.sin_deg(d), AngleDeg(d).sin()), "sin_deg and sin")


def angle_reverse(d: Deg):
    a = AngleDeg(d)
    b = AngleDeg(d)
    b.reverse()
    _deg(b, a.reverse_angle(), "reverse and reverse_angle")


def angle_add(a: Deg, b: Deg):
    s = AngleDeg(a) + AngleDeg(b)
    _deg(AngleDeg(a) + AngleDeg(b).degree(), s, "+ of an angle and of a number")
    x = AngleDeg(a)
    x += AngleDeg(b)
    _deg(x, s, "+= of an angle and +")
    x = AngleDeg(a)
    x += b
    _deg(x, s, "+= of a number and +")


def angle_sub(a: Deg, b: Deg):
    s = AngleDeg(a) - AngleDeg(b)
    _deg(AngleDeg(a) - AngleDeg(b).degree(), s, "- of an angle and of a number")
    x = AngleDeg(a)
    x -= AngleDeg(b)
    _deg(x, s, "-= of an angle and -")
    x = AngleDeg(a)
    x -= b
    _deg(x, s, "-= of a number and -")


def angle_mul(a: Deg):
    for k in (2.0, 0.5, -1.0, 3.0):
        x = AngleDeg(a)
        x *= k
        _deg(x, AngleDeg(a) * k, "*= and *")
    _deg(-AngleDeg(a), AngleDeg(a) * -1.0, "negation and * -1")


def angle_left_right(a: DegOpen, b: DegOpen):
    x = AngleDeg(a)
    y = AngleDeg(b)
    check(x.is_left_of(b) == x.is_left_of(y), "is_left_of of a number and an angle")
    check(x.is_right_of(b) == x.is_right_of(y), "is_right_of of a number and an angle")
    check(x.is_left_equal_of(b) == x.is_left_equal_of(y), "is_left_equal_of of a number and an angle")
    check(x.is_right_equal_of(b) == x.is_right_equal_of(y), "is_right_equal_of of a number and an angle")


def angle_bisect(a: DegOpen, b: DegOpen):
    s = AngleDeg.bisect(AngleDeg(a), AngleDeg(b))
    _deg(AngleDeg.bisect(a, b), s, "bisect of numbers and of angles")


def angle_within(a: DegOpen, b: DegOpen, c: DegOpen):
    check(AngleDeg(a).is_within(b, c) == AngleDeg(a).is_within(AngleDeg(b), AngleDeg(c)), "is_within of numbers and of angles")


# lines

def line_intersection(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    m = Line2D(a, b, c)
    n = Line2D(d, e, f)
    _xy(Line2D.line_intersection(m, n), m.intersection(n), "static and instance intersection")
    check(m.is_parallel(n) == (not m.intersection(n).is_valid()), "is_parallel and a missing intersection")


def line_dist(a: Real, b: Real, c: Real, p: Vec):
    assume(a != 0.0 or b != 0.0)
    n = Line2D(a, b, c)
    check(close(n.dist(p) * n.dist(p), n.dist2(p)), "dist and dist2")


def line_bisector(p: Vec, q: Vec):
    m = Segment2D(p, q).perpendicular_bisector()
    n = Line2D.perpendicular_bisector(p, q)
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), "static and segment bisector")


def line_forms(p: Vec, q: Vec, d: Deg):
    m = Line2D(p, q)
    n = Segment2D(p, q).line()
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), "the line of a segment and of its ends")
    n = Line2D(p1=p, p2=q)
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), "keyword and positional points")
    m = Ray2D(p, d).line()
    n = Line2D(p, d)
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), "the line of a ray and of its origin and direction")
    n = Line2D(p=p, a=d)
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), "keyword and positional direction")


# segments

def segment_accessors(p: Vec, q: Vec):
    s = Segment2D(p, q)
    _xy(s.origin_(), s.origin(), "origin_ and origin")
    _xy(s.terminal_(), s.terminal(), "terminal_ and terminal")
    check(close(s.length(), p.dist(q)), "length and the distance of the ends")
    _deg(s.direction(), (q - p).th(), "direction and the direction of the difference")


def segment_reverse(p: Vec, q: Vec):
    a = Segment2D(p, q)
    a.swap()
    b = Segment2D(p, q)
    b.reverse()
    c = Segment2D(p, q).reversed_segment()
    check(a == b, "swap and reverse")
    check(b == c, "reverse and reversed_segment")
    check(c == Segment2D(q, p), "reversed_segment and the exchanged ends")


def segment_except(p: Vec, q: Vec, r: Vec, t: Vec):
    s = Segment2D(p, q)
    o = Segment2D(r, t)
    check(s.intersects_except_endpoint(o) == s.exist_intersection_except_endpoint(o),
          "intersects_except_endpoint and exist_intersection_except_endpoint")


# triangles

def triangle_static(p: Vec, q: Vec, r: Vec):
    t = Triangle2D(p, q, r)
    check(close(Triangle2D.double_signed_area_st(p, q, r), t.double_signed_area()), "static and instance double area")
    check(close(Triangle2D.signed_area_st(p, q, r), t.signed_area()), "static and instance signed area")
    check(close(t.double_signed_area(), 2.0 * t.signed_area()), "signed area and its double")
    check(close(t.area(), abs(t.signed_area())), "area and signed area")
    check(Triangle2D.tri_ccw(p, q, r) == t.ccw(), "static and instance ccw")
    _xy(Triangle2D.tri_centroid(p, q, r), t.centroid(), "static and instance centroid")
    _xy(Triangle2D.tri_orthocenter(p, q, r), t.orthocenter(), "static and instance orthocenter")


def triangle_circumcenter(p: Vec, q: Vec, r: Vec):
    t = Triangle2D(p, q, r)
    c = Triangle2D.tri_circumcenter(p, q, r)
    d = t.circumcenter()
    _xy(c, d, "static and instance circumcenter")


def triangle_contains(p: Vec, q: Vec, r: Vec, x: Vec):
    check(Triangle2D.tri_contains(p, q, r, x) == Triangle2D(p, q, r).contains(x), "static and instance contains")


def triangle_forms(p: Vec, q: Vec, r: Vec):
    t = Triangle2D(p, q, r)
    u = Triangle2D(Segment2D(p, q), r)
    _xy(t.a(), u.a(), "a triangle of points and of a segment: a")
    _xy(t.b(), u.b(), "a triangle of points and of a segment: b")
    _xy(t.c(), u.c(), "a triangle of points and of a segment: c")
    _xy(t.a_(), t.a(), "a_ and a")
    _xy(t.b_(), t.b(), "b_ and b")
    _xy(t.c_(), t.c(), "c_ and c")


# rectangles

def rect_accessors(p: Vec, a: Real, b: Real):
    r = Rect2D(p, a, b)
    check(r.min_x() == r.left(), "min_x and left")
    check(r.max_x() == r.right(), "max_x and right")
    check(r.min_y() == r.top(), "min_y and top")
    check(r.max_y() == r.bottom(), "max_y and bottom")
    _xy(r.top_left_(), r.top_left(), "top_left_ and top_left")
    check(close((r.size_().length(), r.size_().width()), (r.size().length(), r.size().width())), "size_ and size")


def rect_moves(p: Vec, a: NonNeg, b: NonNeg, k: Real):
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.move_left(k)
    s.move_min_x(k)
    _rect(r, s, "move_left and move_min_x")
    r.move_right(k)
    s.move_max_x(k)
    _rect(r, s, "move_right and move_max_x")
    r.move_top(k)
    s.move_min_y(k)
    _rect(r, s, "move_top and move_min_y")
    r.move_bottom(k)
    s.move_max_y(k)
    _rect(r, s, "move_bottom and move_max_y")


def rect_set_x(p: Vec, a: NonNeg, b: NonNeg, k: Real):
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_left(k)
    s.set_min_x(k)
    _rect(r, s, "set_left and set_min_x")
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_right(k)
    s.set_max_x(k)
    _rect(r, s, "set_right and set_max_x")


def rect_set_y(p: Vec, a: NonNeg, b: NonNeg, k: Real):
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_top(k)
    s.set_min_y(k)
    _rect(r, s, "set_top and set_min_y")
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_bottom(k)
    s.set_max_y(k)
    _rect(r, s, "set_bottom and set_max_y")


def rect_set_corners(p: Vec, a: NonNeg, b: NonNeg, x: Real, y: Real):
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_top_left(x, y)
    s.set_top_left(Vector2D(x, y))
    _rect(r, s, "set_top_left of numbers and of a point")
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_bottom_right(x, y)
    s.set_bottom_right(Vector2D(x, y))
    _rect(r, s, "set_bottom_right of numbers and of a point")


def rect_set_sizes(p: Vec, a: NonNeg, b: NonNeg, c: Real, d: Real):
    r = Rect2D(p, a, b)
    s = Rect2D(p, a, b)
    r.set_size(c, d)
    s.set_size(Size2D(c, d))
    _rect(r, s, "set_size of numbers and of a size")
    s = Rect2D(p, a, b)
    s.set_length(c)
    s.set_width(d)
    _rect(r, s, "set_size and set_length, set_width")


def rect_forms(p: Vec, a: NonNeg, b: NonNeg):
    r = Rect2D(p, a, b)
    _rect(Rect2D(p.x(), p.y(), a, b), r, "a rectangle of numbers and of a point")
    _rect(Rect2D(p, Size2D(a, b)), r, "a rectangle of lengths and of a size")
    _rect(Rect2D(p, p + Vector2D(a, b)), r, "a rectangle of lengths and of corners")
    _rect(Rect2D(r), r, "a copied rectangle")
    c = p + Vector2D(a / 2.0, b / 2.0)
    _rect(Rect2D.from_center(c, a, b), r, "a rectangle around its center")
    _rect(Rect2D.from_center(c.x(), c.y(), a, b), r, "a rectangle around the coordinates of its center")
    check(close(r.area(), a * b), "area and the product of the sides")


# circles

def circle_intersections(o: Vec, r: Pos, a: Real, b: Real, c: Real):
    n = Line2D(a, b, c)
    k = Circle2D(o, r)
    s = k.intersection(n)
    t = k.intersection_with_line(n)
    check(len(s) == len(t), "intersection and intersection_with_line: number")
    for i in range(len(s)):
        check(close((s[i].x(), s[i].y()), (t[i].x(), t[i].y())), "intersection and intersection_with_line")


def circle_circles(o: Vec, r: Pos, x: Real, q: Pos):
    k = Circle2D(o, r)
    m = Circle2D(o + Vector2D(x, 0.0), q)
    s = k.intersection(m)
    t = k.intersection_with_circle(m)
    check(len(s) == len(t), "intersection and intersection_with_circle: number")


def circle_segments(o: Vec, r: Pos, x: Real, y: Real, a: Pos):
    k = Circle2D(o, r)
    m = Segment2D(o + Vector2D(x, y), o + Vector2D(x + a, y))
    s = k.intersection(m)
    t = k.intersection_with_segment(m)
    check(len(s) == len(t), "intersection and intersection_with_segment: number")


def circle_rays(o: Vec, r: Pos, x: Real, y: Real):
    k = Circle2D(o, r)
    m = Ray2D(o + Vector2D(x, y), 0.0)
    s = k.intersection(m)
    t = k.intersection_with_ray(m)
    check(len(s) == len(t), "intersection and intersection_with_ray: number")


def circle_center(o: Vec, r: Pos):
    k = Circle2D(o, r)
    _xy(k.center_(), k.center(), "center_ and center")


def circle_circum(p: Vec, q: Vec, r: Vec):
    k = Circle2D.circum_circle(p, q, r)
    c = Triangle2D.tri_circumcenter(p, q, r)
    assume(c.is_valid())
    _xy(k.center(), c, "circum_circle and circumcenter")


# sectors

def sector_accessors(o: Vec, m: NonNeg, n: NonNeg, a: Deg, b: Deg):
    s = Sector2D(o, m, n, a, b)
    _xy(s.center_(), s.center(), "center_ and center")
    _deg(s.angle_left_start_(), s.angle_left_start(), "angle_left_start_ and angle_left_start")
    _deg(s.angle_right_end_(), s.angle_right_end(), "angle_right_end_ and angle_right_end")
    t = Sector2D(o, m, n, AngleDeg(a), AngleDeg(b))
    _deg(t.angle_left_start(), s.angle_left_start(), "a sector of angles and of numbers: start")
    _deg(t.angle_right_end(), s.angle_right_end(), "a sector of angles and of numbers: end")
    t.assign(o, m, n, a, b)
    check(s == t, "assign and the constructor")


# matrices

def matrix_products(a: Real, b: Real, c: Real, d: Real, x: Real, y: Real, k: Real, p: Vec):
    m = Matrix2D(a, b, c, d, x, y)
    n = Matrix2D(d, k, x, a, b, c)
    s = m * n
    u = Matrix2D(a, b, c, d, x, y)
    u *= n
    v = n * m
    check(close((u.m11(), u.m12(), u.m21(), u.m22()), (v.m11(), v.m12(), v.m21(), v.m22()))
          or close((u.m11(), u.m12(), u.m21(), u.m22()), (s.m11(), s.m12(), s.m21(), s.m22())),
          "*= is one of the two products")
    _xy(m * p, m.transform(p), "* and transform")
    _xy(m.transform(p.x(), p.y()), m.transform(p), "transform of numbers and of a point")
    q = Vector2D(p)
    m.transform_vec(q)
    _xy(q, m.transform(p), "transform_vec and transform")


def matrix_makers(a: Real, b: Real, d: Deg):
    m = Matrix2D()
    m.translate(a, b)
    _mat(m, Matrix2D.make_translation(a, b), "translate and make_translation")
    m = Matrix2D()
    m.scale(a, b)
    _mat(m, Matrix2D.make_scaling(a, b), "scale and make_scaling")
    m = Matrix2D()
    m.rotate(AngleDeg(d))
    _mat(m, Matrix2D.make_rotation(AngleDeg(d)), "rotate and make_rotation")


def matrix_reset(a: Real, b: Real, c: Real, d: Real, x: Real, y: Real):
    m = Matrix2D(a, b, c, d, x, y)
    n = Matrix2D()
    n.assign(a, b, c, d, x, y)
    _mat(m, n, "assign and the constructor")
    m.reset()
    _mat(m, Matrix2D(), "reset and the default matrix")


# sizes and polygons

def size_forms(a: Real, b: Real):
    s = Size2D(a, b)
    t = Size2D()
    t.assign(a, b)
    check(s == t, "assign and the constructor")
    t = Size2D()
    t.set_length(a)
    t.set_width(b)
    check(s == t, "set_length, set_width and the constructor")


def polygon_forms(p: Vec, q: Vec, r: Vec):
    g = Polygon2D([p, q, r])
    h = Polygon2D(p, q, r)
    check(close(g.double_signed_area(), h.double_signed_area()), "a polygon of a list and of points")
    check(close(g.area() * 2.0, abs(g.double_signed_area())), "area and double signed area")
    for i in range(3):
        _xy(g.vertices()[i], h.vertices()[i], "the vertices of a list and of points")
        _xy(g.vertices_()[i], g.vertices()[i], "vertices_ and vertices")
    check(g.is_counter_clockwise() == (g.double_signed_area() > 0.0), "is_counter_clockwise and the sign of the area")
    check(g.is_clockwise() == (g.double_signed_area() < 0.0), "is_clockwise and the sign of the area")


def polygon_triangle(p: Vec, q: Vec, r: Vec):
    g = Polygon2D([p, q, r])
    t = Triangle2D(p, q, r)
    check(close(g.double_signed_area(), t.double_signed_area()), "a polygon of three points and the triangle")
    check(g.is_counter_clockwise() == t.ccw() or t.double_signed_area() == 0.0, "orientation of a polygon and the triangle")


def polygon_box(p: Vec, q: Vec):
    g = Polygon2D([p, q])
    _xy(g.bounding_box_center(), g.get_bounding_box().center(), "bounding_box_center and the center of the box")


def angular_order(p: Vec, q: Vec, b: Vec):
    n = angle_sort_predicate(p, q, b)
    x = AngleSortPredicate(p, b)
    y = AngleSortPredicate(q, b)
    check((x < y) == (n < 0), "the sort key < and the predicate")
    check((x > y) == (n > 0), "the sort key > and the predicate")
    check((x <= y) == (n <= 0), "the sort key <= and the predicate")
    check((x >= y) == (n >= 0), "the sort key >= and the predicate")
    check((x == y) == (n == 0), "the sort key == and the predicate")
    check((x != y) == (n != 0), "the sort key != and the predicate")
    check(n == angle_sort_predicate(lhs=p, rhs=q, base=b), "the predicate by position and by name")
    check(angle_sort_predicate(p, q) == angle_sort_predicate(p, q, Vector2D(0.0, 0.0)), "the default pivot is the origin")


def hull_accessors():
    for m in (MethodType.DIRECT_METHOD, MethodType.WRAPPING_METHOD, MethodType.GRAHAN_SCAN):
        h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(1.0, 3.0), Vector2D(1.5, 1.0)])
        h.compute(m)
        check(h.vertices_() == h.vertices(), "vertices_ and vertices of a hull")
        check(h.edges_() == h.edges(), "edges_ and edges of a hull")
        check(h.input_points_() == h.input_points(), "input_points_ and input_points of a hull")
        check(h.to_polygon().vertices() == h.vertices(), "to_polygon and vertices of a hull")
