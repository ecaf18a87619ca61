"""query, change, query: an object answers as a fresh one with the new components"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.convex_hull import ConvexHull, MethodType


# vectors

def _v(v):
    return (v.x(), v.y(), v.get_x(), v.get_y(), v.r(), v.r2(), v.length(), v.length2(), v.abs_x(), v.abs_y())


def _vmore(v, w):
    return (v.dist(w), v.inner_product(w), v.outer_product(w), v.abs().x(), v.reverse_vector().y(), (v + w).x(), (v * 2.0).y())


def _vector(v, x, y, what):
    f = Vector2D(x, y)
    check(close(_v(v), _v(f)), what + ": measures")
    o = Vector2D(2.0, -3.0)
    check(close(_vmore(v, o), _vmore(f, o)), what + ": relations")
    check(v == f, what + ": equality")
    check(hash(v) == hash(f), what + ": hash")


def vector_assign(p: Vec, x: Real, y: Real):
    _v(p)
    hash(p)
    _vmore(p, Vector2D(1.0, 1.0))
    p.assign(x, y)
    _vector(p, x, y, "assign")
    p.set_x_y(y, x)
    _vector(p, y, x, "set_x_y")
    p.set_x(x)
    _vector(p, x, x, "set_x")
    p.set_y(y)
    _vector(p, x, y, "set_y")
    p.set_vector(Vector2D(y, x))
    _vector(p, y, x, "set_vector")


def vector_in_place(x: Real, y: Real, a: Real, b: Real):
    p = Vector2D(x, y)
    _v(p)
    hash(p)
    p += Vector2D(a, b)
    _vector(p, x + a, y + b, "+=")
    p -= Vector2D(a, b)
    _vector(p, x, y, "-=")
    p *= a
    _vector(p, x * a, y * a, "*=")


def vector_divided(x: Real, y: Real, a: Pos):
    p = Vector2D(x, y)
    _v(p)
    hash(p)
    p /= a
    _vector(p, x / a, y / a, "/=")


def vector_methods(x: Real, y: Real, a: Real, b: Real):
    p = Vector2D(x, y)
    _v(p)
    hash(p)
    p.add(a, b)
    _vector(p, x + a, y + b, "add")
    p.sub(Vector2D(a, b))
    _vector(p, x, y, "sub")
    p.add_x(a)
    _vector(p, x + a, y, "add_x")
    p.add_y(b)
    _vector(p, x + a, y + b, "add_y")
    p.sub_x(a)
    _vector(p, x, y + b, "sub_x")
    p.sub_y(b)
    _vector(p, x, y, "sub_y")
    p.scale(b)
    _vector(p, x * b, y * b, "scale")
    p.reverse()
    _vector(p, -x * b, -y * b, "reverse")


def vector_turned(x: Real, y: Real):
    p = Vector2D(x, y)
    _v(p)
    hash(p)
    p.rotate(90.0)
    check(close(_v(p), _v(Vector2D(-y, x))), "rotate")
    p.rotate(AngleDeg(180.0))
    check(close(_v(p), _v(Vector2D(y, -x))), "rotate by an angle")


def vector_direction(p: Vec, x: Real, y: Real):
    p.th()
    p.dir()
    p.assign(x, y)
    check(close(p.th().degree(), Vector2D(x, y).th().degree()), "th after assign")
    p.reverse()
    check(close(p.dir().degree(), Vector2D(-x, -y).dir().degree()), "dir after reverse")
    p += Vector2D(1.0, 2.0)
    check(close(p.th().degree(), Vector2D(1.0 - x, 2.0 - y).th().degree()), "th after +=")


def vector_polar(p: Vec, r: Pos, d: DegOpen):
    p.th()
    p.r()
    hash(p)
    p.set_polar(r, d)
    check(close(p.r(), r), "r after set_polar")
    check(close((p.x(), p.y()), (r * cosd(d), r * sind(d))), "coordinates after set_polar")
    p.set_dir(d)
    check(close(p.r(), r), "r after set_dir")


def vector_length(x: Real, y: Real, k: Pos):
    assume(k > 0.01)
    assume(x * x + y * y > 0.01)
    p = Vector2D(x, y)
    _v(p)
    hash(p)
    p.set_length(k)
    check(close(p.r2(), k * k), "r2 after set_length")
    p.normalize()
    check(close(p.r2(), 1.0), "r2 after normalize")
    p.set_length(k)
    check(close(p.r2(), k * k), "r2 after set_length again")


def vector_products(p: Vec, q: Vec, x: Real, y: Real):
    p.dist(q)
    p.inner_product(q)
    p.outer_product(q)
    p.equals_weakly(q)
    p == q
    q.assign(x, y)
    f = Vector2D(x, y)
    check(close(p.dist(q), p.dist(f)), "dist after the argument changed")
    check(close(p.inner_product(q), p.inner_product(f)), "inner_product after the argument changed")
    check(close(p.outer_product(q), p.outer_product(f)), "outer_product after the argument changed")
    check((p == q) == (p == f), "== after the argument changed")
    check(p.equals_weakly(q) == p.equals_weakly(f), "equals_weakly after the argument changed")
    check(p.equals(q) == p.equals(f), "equals after the argument changed")


# angles

def _a(a):
    return (a.degree(), a.degree_(), a.radian(), a.abs(), a.cos(), a.sin(), float(a))


def _angle(a, d, what):
    f = AngleDeg(d)
    check(close(_a(a), _a(f)), what)
    check(a == f, what + ": equality")


def angle_set(a: DegOpen, d: DegOpen, e: DegOpen):
    x = AngleDeg(a)
    _a(x)
    x.set_degree(d)
    _angle(x, d, "set_degree")
    x.set_angle(AngleDeg(e))
    _angle(x, e, "set_angle")
    x.reverse()
    check(close(x.degree(), AngleDeg(e).reverse_angle().degree()), "reverse")


def angle_in_place(a: DegOpen, d: DegOpen):
    x = AngleDeg(a)
    _a(x)
    x += d
    check(close(x.degree(), (AngleDeg(a) + AngleDeg(d)).degree()), "+=")
    check(close((x.cos(), x.sin()), (cosd(a + d), sind(a + d))), "cos and sin after +=")
    x -= AngleDeg(d)
    check(close((x.cos(), x.sin()), (cosd(a), sind(a))), "cos and sin after -=")


def angle_scaled(a: DegOpen):
    x = AngleDeg(a)
    _a(x)
    x *= 0.5
    _angle(x, a * 0.5, "*=")
    x /= 2.0
    _angle(x, a / 4.0, "/=")


def angle_relations(a: DegOpen, d: DegOpen, e: DegOpen):
    x = AngleDeg(a)
    x.is_left_of(d)
    x.is_right_of(d)
    x.is_within(AngleDeg(d), AngleDeg(e))
    x.set_degree(e)
    f = AngleDeg(e)
    check(x.is_left_of(d) == f.is_left_of(d), "is_left_of after set_degree")
    check(x.is_right_of(d) == f.is_right_of(d), "is_right_of after set_degree")
    check(x.is_within(AngleDeg(d), AngleDeg(a)) == f.is_within(AngleDeg(d), AngleDeg(a)), "is_within after set_degree")


# segments

def _s(s):
    n = s.line()
    return (s.origin().x(), s.origin().y(), s.terminal().x(), s.terminal().y(), s.length(), n.a(), n.b(), n.c())


def _segment(s, p, q, x, what):
    f = Segment2D(p, q)
    check(close(_s(s), _s(f)), what + ": ends, length, line")
    check(s == f, what + ": equality")
    check(s.is_valid() == f.is_valid(), what + ": validity")
    check(s.contains(x) == f.contains(x), what + ": contains")
    check(s.on_segment(x) == f.on_segment(x), what + ": on_segment")


def _segment_asked(s, x):
    _s(s)
    s.is_valid()
    s.direction()
    s.contains(x)
    s.on_segment(x)


def segment_assign(p: Vec, q: Vec, r: Vec, t: Vec):
    x = Vector2D(1.0, 2.0)
    s = Segment2D(p, q)
    _segment_asked(s, x)
    s.assign(r, t)
    _segment(s, r, t, x, "assign")
    s.assign(p.x(), p.y(), q.x(), q.y())
    _segment(s, p, q, x, "assign numbers")


def segment_turned(p: Vec, q: Vec):
    x = Vector2D(1.0, 2.0)
    s = Segment2D(p, q)
    _segment_asked(s, x)
    s.swap()
    _segment(s, q, p, x, "swap")
    s.reverse()
    _segment(s, p, q, x, "reverse")


def segment_through(p: Vec, q: Vec, a: Real, b: Real):
    x = Vector2D(1.0, 2.0)
    s = Segment2D(p, q)
    _segment_asked(s, x)
    s.origin_().assign(a, b)
    _segment(s, Vector2D(a, b), q, x, "a changed origin")
    s.terminal_().set_x(b)
    _segment(s, Vector2D(a, b), Vector2D(b, q.y()), x, "a changed terminal")


def segment_direction(p: Vec, q: Vec, r: Vec):
    s = Segment2D(p, q)
    s.direction()
    s.assign(p, r)
    check(close(s.direction().degree(), (r - p).th().degree()), "direction after assign")
    s.swap()
    check(close(s.direction().degree(), (p - r).th().degree()), "direction after swap")


def segment_nearest(p: Vec, q: Vec, r: Vec, x: Vec):
    s = Segment2D(p, q)
    s.nearest_point(x)
    s.projection(x)
    s.dist(x)
    s.farthest_dist(x)
    s.assign(q, r)
    f = Segment2D(q, r)
    check(close((s.nearest_point(x).x(), s.nearest_point(x).y()), (f.nearest_point(x).x(), f.nearest_point(x).y())), "nearest_point after assign")
    check(close((s.projection(x).x(), s.projection(x).y()), (f.projection(x).x(), f.projection(x).y())), "projection after assign")
    check(close(s.dist(x), f.dist(x)), "dist after assign")
    check(close(s.farthest_dist(x), f.farthest_dist(x)), "farthest_dist after assign")


def segment_crossing(p: Vec, q: Vec, r: Vec, t: Vec):
    s = Segment2D(p, q)
    o = Segment2D(r, t)
    s.exist_intersection(o)
    s.intersection(o)
    s.assign(q, r)
    f = Segment2D(q, r)
    check(s.exist_intersection(o) == f.exist_intersection(o), "exist_intersection after assign")


def segment_bisector(p: Vec, q: Vec, a: Real):
    s = Segment2D(p, q)
    s.perpendicular_bisector()
    s.terminal_().set_x(a)
    m = s.perpendicular_bisector()
    n = Line2D.perpendicular_bisector(p, Vector2D(a, q.y()))
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), "the bisector after the terminal moved")


# rays

def ray_through(p: Vec, d: Deg, a: Real, b: Real, e: Deg):
    r = Ray2D(p, d)
    r.line()
    r.in_right_dir(Vector2D(1.0, 2.0))
    r.origin_().assign(a, b)
    m = r.line()
    n = Line2D(Vector2D(a, b), d)
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), "the line after the origin moved")
    r.dir_().set_degree(e)
    m = r.line()
    n = Line2D(Vector2D(a, b), e)
    check(close((m.a(), m.b(), m.c()), (n.a(), n.b(), n.c())), "the line after the direction changed")
    check(r == Ray2D(Vector2D(a, b), e), "equality after both changed")


# triangles

def _t(t):
    c = t.centroid()
    return (t.a().x(), t.a().y(), t.b().x(), t.b().y(), t.c().x(), t.c().y(),
            t.area(), t.signed_area(), t.double_signed_area(), c.x(), c.y())


def _triangle(t, p, q, r, what):
    f = Triangle2D(p, q, r)
    check(close(_t(t), _t(f)), what + ": corners, area, centroid")
    check(t.ccw() == f.ccw(), what + ": orientation")
    check(t.is_valid() == f.is_valid(), what + ": validity")


def triangle_assign(p: Vec, q: Vec, r: Vec, s: Vec):
    t = Triangle2D(p, q, r)
    _t(t)
    t.ccw()
    t.is_valid()
    t.assign(q, r, s)
    _triangle(t, q, r, s, "assign")
    t.assign(Segment2D(p, s), q)
    _triangle(t, p, s, q, "assign of a segment")


def triangle_through(p: Vec, q: Vec, r: Vec, x: Real, y: Real):
    t = Triangle2D(p, q, r)
    _t(t)
    t.ccw()
    t.is_valid()
    t.a_().assign(x, y)
    _triangle(t, Vector2D(x, y), q, r, "a changed first corner")
    t.b_().set_x(x)
    _triangle(t, Vector2D(x, y), Vector2D(x, q.y()), r, "a changed second corner")
    t.c_().set_y(y)
    _triangle(t, Vector2D(x, y), Vector2D(x, q.y()), Vector2D(r.x(), y), "a changed third corner")


def triangle_contains(p: Vec, q: Vec, r: Vec, s: Vec):
    x = Vector2D(0.0, 0.0)
    t = Triangle2D(p, q, r)
    t.contains(x)
    t.assign(p, q, s)
    check(t.contains(x) == Triangle2D(p, q, s).contains(x), "contains after assign")


def triangle_centers(p: Vec, q: Vec, r: Vec, s: Vec):
    t = Triangle2D(p, q, r)
    t.orthocenter()
    t.assign(p, q, s)
    o = t.orthocenter()
    f = Triangle2D(p, q, s).orthocenter()
    check(close((o.x(), o.y()), (f.x(), f.y())), "orthocenter after assign")


def triangle_circumcenter(p: Vec, q: Vec, r: Vec, s: Vec):
    t = Triangle2D(p, q, r)
    t.circumcenter()
    t.assign(p, q, s)
    o = t.circumcenter()
    f = Triangle2D(p, q, s).circumcenter()
    check(close((o.x(), o.y()), (f.x(), f.y())), "circumcenter after assign")


# circles and sectors

def circle_assign(p: Vec, r: Pos, q: Vec, s: Pos, x: Vec):
    c = Circle2D(p, r)
    c.area()
    c.contains(x)
    c.radius()
    c.center()
    c.assign(q, s)
    f = Circle2D(q, s)
    check(close((c.center().x(), c.center().y(), c.radius(), c.area()),
                (f.center().x(), f.center().y(), f.radius(), f.area())), "assign")
    check(c.contains(x) == f.contains(x), "contains after assign")


def circle_through(p: Vec, r: Pos, a: Real, b: Real, x: Vec):
    c = Circle2D(p, r)
    c.contains(x)
    c.area()
    c.center_().assign(a, b)
    check(close((c.center().x(), c.center().y()), (a, b)), "a changed center")
    check(c.contains(x) == Circle2D(Vector2D(a, b), r).contains(x), "contains after the center moved")


def circle_line(p: Vec, r: Pos, a: Real, b: Real, k: Real):
    c = Circle2D(p, r)
    n = Line2D(0.0, 1.0, k)
    c.intersection(n)
    c.center_().assign(a, b)
    s = c.intersection(n)
    t = Circle2D(Vector2D(a, b), r).intersection(n)
    check(len(s) == len(t), "the number of intersections after the center moved")
    for i in range(len(s)):
        check(close((s[i].x(), s[i].y()), (t[i].x(), t[i].y())), "the intersections after the center moved")


def _c(s):
    return (s.center().x(), s.center().y(), s.radius_min(), s.radius_max(),
            s.angle_left_start().degree(), s.angle_right_end().degree())


def sector_assign(p: Vec, m: NonNeg, k: Pos, a: DegOpen, b: DegOpen, q: Vec, n: NonNeg, j: Pos):
    s = Sector2D(p, m, m + k, a, b)
    _c(s)
    s.area()
    s.contains(q)
    s.get_circumference_min()
    s.assign(q, n, n + j, b, a)
    f = Sector2D(q, n, n + j, b, a)
    check(close(_c(s), _c(f)), "assign")
    check(close(s.area(), f.area()), "area after assign")
    check(close(s.get_circumference_min(), f.get_circumference_min()), "inner arc after assign")
    check(close(s.get_circumference_max(), f.get_circumference_max()), "outer arc after assign")
    check(s == f, "equality after assign")


def sector_through(p: Vec, m: NonNeg, k: Pos, a: DegOpen, b: DegOpen, x: Real, y: Real, d: DegOpen):
    s = Sector2D(p, m, m + k, a, b)
    _c(s)
    s.area()
    s.center_().assign(x, y)
    s.angle_left_start_().set_degree(d)
    f = Sector2D(Vector2D(x, y), m, m + k, d, b)
    check(close(_c(s), _c(f)), "a changed center and start")
    check(close(s.area(), f.area()), "area after the start changed")
    s.angle_right_end_().set_degree(a)
    f = Sector2D(Vector2D(x, y), m, m + k, d, a)
    check(close(_c(s), _c(f)), "a changed end")
    check(close(s.area(), f.area()), "area after the end changed")


# rectangles and sizes

def _r(r):
    c = r.center()
    return (r.left(), r.right(), r.top(), r.bottom(), r.min_x(), r.max_x(), r.min_y(), r.max_y(), r.area(),
            c.x(), c.y(), r.size().length(), r.size().width())


def _corners(r):
    return (r.top_left().x(), r.top_left().y(), r.top_right().x(), r.top_right().y(),
            r.bottom_left().x(), r.bottom_left().y(), r.bottom_right().x(), r.bottom_right().y(),
            r.left_edge().c(), r.right_edge().c(), r.top_edge().c(), r.bottom_edge().c())


def _rect(r, x, y, a, b, what):
    f = Rect2D(x, y, a, b)
    check(close(_r(r), _r(f)), what + ": measures")
    check(close(_corners(r), _corners(f)), what + ": corners and edges")
    check(r.is_valid() == f.is_valid(), what + ": validity")
    o = Vector2D(1.0, 2.0)
    check(r.contains(o) == f.contains(o), what + ": contains")


def _asked(x, y, a, b):
    r = Rect2D(x, y, a, b)
    _r(r)
    _corners(r)
    r.is_valid()
    r.contains(Vector2D(1.0, 2.0))
    return r


def rect_moved(x: Real, y: Real, a: Pos, b: Pos, k: Real, h: Real):
    r = _asked(x, y, a, b)
    r.move_left(k)
    _rect(r, k, y, a, b, "move_left")
    r.move_top(h)
    _rect(r, k, h, a, b, "move_top")
    r.move_right(x)
    _rect(r, x - a, h, a, b, "move_right")
    r.move_bottom(y)
    _rect(r, x - a, y - b, a, b, "move_bottom")


def rect_moved_corner(x: Real, y: Real, a: Pos, b: Pos, k: Real, h: Real):
    r = _asked(x, y, a, b)
    r.move_top_left(Vector2D(k, h))
    _rect(r, k, h, a, b, "move_top_left")
    r.move_bottom_right(Vector2D(x, y))
    _rect(r, x - a, y - b, a, b, "move_bottom_right")
    r.move_center(Vector2D(k, h))
    _rect(r, k - a / 2.0, h - b / 2.0, a, b, "move_center")


def rect_resized(x: Real, y: Real, a: Pos, b: Pos, c: NonNeg, d: NonNeg):
    r = _asked(x, y, a, b)
    r.set_length(c)
    _rect(r, x, y, c, b, "set_length")
    r.set_width(d)
    _rect(r, x, y, c, d, "set_width")
    r.set_size(a, b)
    _rect(r, x, y, a, b, "set_size")
    r.set_size(Size2D(d, c))
    _rect(r, x, y, d, c, "set_size of a size")


def rect_set_edges(x: Real, y: Real, a: Pos, b: Pos, k: Pos):
    r = _asked(x, y, a, b)
    r.set_left(x - k)
    _rect(r, x - k, y, a + k, b, "set_left")
    r.set_right(x + a + k)
    _rect(r, x - k, y, a + k + k, b, "set_right")
    r.set_top(y - k)
    _rect(r, x - k, y - k, a + k + k, b + k, "set_top")
    r.set_bottom(y + b + k)
    _rect(r, x - k, y - k, a + k + k, b + k + k, "set_bottom")


def rect_assign(x: Real, y: Real, a: Pos, b: Pos, k: Real, h: Real, c: NonNeg, d: NonNeg):
    r = _asked(x, y, a, b)
    r.assign(k, h, c, d)
    _rect(r, k, h, c, d, "assign")
    r.assign(Vector2D(x, y), a, b)
    _rect(r, x, y, a, b, "assign of a point")
    r.assign(Vector2D(k, h), Size2D(c, d))
    _rect(r, k, h, c, d, "assign of a size")
    r.assign(Rect2D(x, y, a, b))
    _rect(r, x, y, a, b, "assign of a rectangle")


def rect_through(x: Real, y: Real, a: Pos, b: Pos, k: Real, h: Real, c: NonNeg):
    r = _asked(x, y, a, b)
    r.top_left_().assign(k, h)
    _rect(r, k, h, a, b, "a changed corner")
    r.size_().set_length(c)
    _rect(r, k, h, c, b, "a changed size")
    r.size_().assign(b, a)
    _rect(r, k, h, b, a, "a size assigned")


def rect_line(x: Real, y: Real, a: Pos, b: Pos, k: Real, h: Real):
    r = _asked(x, y, a, b)
    n = Line2D(0.0, 1.0, h)
    r.intersection(n)
    r.move_top(k)
    s = r.intersection(n)
    t = Rect2D(x, k, a, b).intersection(n)
    check(len(s) == len(t), "the number of intersections after moving")


def size_changed(a: Real, b: Real, c: Real, d: Real):
    s = Size2D(a, b)
    s.diagonal()
    s.is_valid()
    s.assign(c, d)
    f = Size2D(c, d)
    check(close((s.length(), s.width()), (f.length(), f.width())), "assign")
    check(close(s.diagonal(), f.diagonal()), "diagonal after assign")
    check(s.is_valid() == f.is_valid(), "validity after assign")
    s.set_length(a)
    f = Size2D(a, d)
    check(close(s.diagonal(), f.diagonal()), "diagonal after set_length")
    check(s.is_valid() == f.is_valid(), "validity after set_length")
    s.set_width(b)
    f = Size2D(a, b)
    check(close(s.diagonal(), f.diagonal()), "diagonal after set_width")
    check(s == f, "equality after set_width")


# polygons

def _g(g):
    return (g.area(), g.double_signed_area())


def _box(g):
    b = g.get_bounding_box()
    c = g.bounding_box_center()
    return (b.left(), b.right(), b.top(), b.bottom(), c.x(), c.y())


def _polygon(g, ps, what):
    f = Polygon2D(ps)
    check(len(g.vertices()) == len(ps), what + ": number of vertices")
    check(close(_g(g), _g(f)), what + ": area")
    check(g.is_clockwise() == f.is_clockwise(), what + ": clockwise")
    check(g.is_counter_clockwise() == f.is_counter_clockwise(), what + ": counter-clockwise")


def polygon_changed(p: Vec, q: Vec, r: Vec, s: Vec):
    g = Polygon2D([p, q, r])
    _g(g)
    g.is_clockwise()
    g.is_counter_clockwise()
    g.vertices()
    g.add_vertex(s)
    _polygon(g, [p, q, r, s], "add_vertex")
    g.assign([s, q, p])
    _polygon(g, [s, q, p], "assign")
    g.clear()
    check(close(_g(g), (0.0, 0.0)), "clear")
    g.assign([p, q, s])
    _polygon(g, [p, q, s], "assign after clear")


def polygon_through(p: Vec, q: Vec, r: Vec, x: Real, y: Real):
    g = Polygon2D([p, q, r])
    _g(g)
    g.is_clockwise()
    g.is_counter_clockwise()
    g.vertices_()[1].assign(x, y)
    _polygon(g, [p, Vector2D(x, y), r], "a changed vertex")
    g.vertices_().append(q)
    _polygon(g, [p, Vector2D(x, y), r, q], "an appended vertex")
    g.vertices_()[0] = q
    _polygon(g, [q, Vector2D(x, y), r, q], "a replaced vertex")
    g.vertices_().pop()
    _polygon(g, [q, Vector2D(x, y), r], "a removed vertex")


def polygon_box(p: Vec, q: Vec, r: Vec, x: Real, y: Real):
    g = Polygon2D([p, q])
    _box(g)
    g.add_vertex(r)
    check(close(_box(g), _box(Polygon2D([p, q, r]))), "bounding box after add_vertex")
    g.assign([q, p])
    check(close(_box(g), _box(Polygon2D([q, p]))), "bounding box after assign")
    g.vertices_()[0].assign(x, y)
    check(close(_box(g), _box(Polygon2D([Vector2D(x, y), p]))), "bounding box after a vertex moved")


def polygon_contains(x: Real, y: Real):
    o = Vector2D(1.0, 1.0)
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(0.5, 4.0)])
    g.contains(o)
    g.dist(o)
    g.vertices_()[0].assign(x, y)
    f = Polygon2D([Vector2D(x, y), Vector2D(4.0, 0.5), Vector2D(0.5, 4.0)])
    check(g.contains(o) == f.contains(o), "contains after a vertex moved")
    g.assign([Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(x, y)])
    f = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(x, y)])
    check(g.contains(o) == f.contains(o), "contains after assign")


def polygon_dist(p: Vec, q: Vec, x: Vec):
    g = Polygon2D([p])
    g.dist(x)
    g.assign([q])
    check(close(g.dist(x), q.dist(x)), "dist after assign")
    g.vertices_()[0].assign(p.x(), p.y())
    check(close(g.dist(x), p.dist(x)), "dist after a vertex moved")


def _many():
    return [Vector2D(float(i), float(i * i) / 20.0) for i in range(-12, 12)]


def polygon_many_area(x: Real, y: Real):
    for at in range(24):
        g = Polygon2D(_many())
        g.area()
        _g(g)
        g.vertices_()[at].assign(x, y)
        ps = _many()
        ps[at] = Vector2D(x, y)
        f = Polygon2D(ps)
        check(close(_g(g), _g(f)), "24 vertices: area after any one of them moved")
        check(close(g.area(), f.area()), "24 vertices: area after any one of them moved")


def polygon_many_replaced(x: Real, y: Real):
    for at in (0, 3, 4, 5, 9, 15, 22, 23):
        g = Polygon2D(_many())
        g.area()
        _g(g)
        g.vertices_()[at] = Vector2D(x, y)
        ps = _many()
        ps[at] = Vector2D(x, y)
        check(close(_g(g), _g(Polygon2D(ps))), "24 vertices: area after one was replaced")
        g.vertices_().pop(at)
        ps.pop(at)
        check(close(_g(g), _g(Polygon2D(ps))), "24 vertices: area after one was removed")
        g.add_vertex(Vector2D(y, x))
        ps.append(Vector2D(y, x))
        check(close(_g(g), _g(Polygon2D(ps))), "24 vertices: area after one was added")


def polygon_many_box(x: Real, y: Real):
    for at in (0, 4, 9, 15, 23):
        g = Polygon2D(_many())
        _box(g)
        g.vertices_()[at].assign(x, y)
        ps = _many()
        ps[at] = Vector2D(x, y)
        check(close(_box(g), _box(Polygon2D(ps))), "24 vertices: bounding box after one moved")


# matrices

def _m(m, p):
    v = m.transform(p)
    return (m.m11(), m.m12(), m.m21(), m.m22(), m.dxtf(), m.dytf(), m.det(), v.x(), v.y())


def _matrix(m, f, p, what):
    check(close(_m(m, p), _m(f, p)), what)
    check(m.invertible() == f.invertible(), what + ": invertible")


def matrix_changed(a: Real, b: Real, c: Real, d: Real, x: Real, y: Real, p: Vec):
    m = Matrix2D(a, b, c, d, x, y)
    _m(m, p)
    m.invertible()
    m.inverted()
    m.assign(d, c, b, a, y, x)
    _matrix(m, Matrix2D(d, c, b, a, y, x), p, "assign")
    m.translate(a, b)
    _matrix(m, Matrix2D.make_translation(a, b) * Matrix2D(d, c, b, a, y, x), p, "translate")
    m.reset()
    _matrix(m, Matrix2D(), p, "reset")
    m.scale(c, d)
    _matrix(m, Matrix2D.make_scaling(c, d), p, "scale")
    m *= Matrix2D(a, b, c, d, x, y)
    check(close(m.det(), m.m11() * m.m22() - m.m12() * m.m21()), "*=: det of the new elements")


def matrix_inverse(a: Real, b: Real, p: Vec):
    m = Matrix2D(1.0, 2.0, 3.0, 4.0, 5.0, 6.0)
    m.inverted()
    m.invertible()
    m.assign(1.0, 0.0, 0.0, 1.0, a, b)
    i = m.inverted()
    check(close((i.dxtf(), i.dytf()), (-a, -b)), "inverted after assign")
    m.rotate(AngleDeg(90.0))
    v = m.inverted().transform(m.transform(p))
    check(close((v.x(), v.y()), (p.x(), p.y())), "inverted after rotate")


# hulls

def hull_changed(p: Vec, q: Vec, r: Vec):
    a = (q.x() - p.x()) * (r.y() - p.y()) - (q.y() - p.y()) * (r.x() - p.x())
    assume(a > 0.001 or a < -0.001)
    h = ConvexHull([p, q])
    h.compute()
    h.vertices()
    h.edges()
    h.to_polygon()
    h.add_point(r)
    h.compute()
    check(len(h.vertices()) == 3, "a hull computed after a point was added")
    check(len(h.edges()) == 3, "the edges after a point was added")
    check(close(h.to_polygon().area() * 2.0, abs(a)), "the polygon after a point was added")
    h.clear()
    check(len(h.vertices()) == 0 and len(h.edges()) == 0, "a cleared hull")
    h.compute()
    check(len(h.vertices()) == 0 and len(h.edges()) == 0, "a hull of nothing")


def _hull_fresh(h, kind, what):
    """the hull, computed again, is the hull of its points"""
    h.compute(kind)
    f = ConvexHull([p.copy() for p in h.input_points()])
    f.compute(kind)
    vs, ws, es, fs = h.vertices(), f.vertices(), h.edges(), f.edges()
    check(len(vs) == len(ws) and len(es) == len(fs), what + ": as many vertices and edges as computed at once")
    for v, w in zip(vs, ws):
        check(close((v.x(), v.y()), (w.x(), w.y())), what + ": the vertices computed at once")
    for e, g in zip(es, fs):
        check(close((e.origin().x(), e.origin().y(), e.terminal().x(), e.terminal().y()),
                    (g.origin().x(), g.origin().y(), g.terminal().x(), g.terminal().y())),
              what + ": the edges computed at once")
    pv, qv = h.to_polygon().vertices(), f.to_polygon().vertices()
    check(len(pv) == len(qv), what + ": polygon size")
    for v, w in zip(pv, qv):
        check(close((v.x(), v.y()), (w.x(), w.y())), what + ": polygon")


def _hull_grows(kind):
    h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(1.0, 3.0)])
    h.compute(kind)
    h.add_point(Vector2D(6.0, 7.0))
    _hull_fresh(h, kind, "a hull with a point added")
    h.add_points([Vector2D(30.0, 31.0), Vector2D(-30.0, 37.0)])
    _hull_fresh(h, kind, "a hull with points added")
    h.add_point(Vector2D(2.0, 15.0))
    _hull_fresh(h, kind, "a hull with an inner point added")
    h.input_points_().pop()
    _hull_fresh(h, kind, "a hull with a point removed")
    h.input_points_()[0].assign(-3.0, -2.0)
    _hull_fresh(h, kind, "a hull with a point moved")
    h.clear_results()
    _hull_fresh(h, kind, "a hull with its results cleared")


def hull_grows_wrap():
    _hull_grows(MethodType.WRAPPING_METHOD)


def hull_grows_scan():
    _hull_grows(MethodType.GRAHAN_SCAN)


def hull_grows_direct():
    _hull_grows(MethodType.DIRECT_METHOD)


def _hull_any(kind, x):
    assume(x.x() > 5.0 and x.y() > 4.0 and x.x() < 20.0 and x.y() < 20.0)
    h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(1.0, 3.0)])
    h.compute(kind)
    h.add_point(x)
    _hull_fresh(h, kind, "a hull with any point added")


def hull_any_wrap(x: Vec):
    _hull_any(MethodType.WRAPPING_METHOD, x)


def hull_any_scan(x: Vec):
    _hull_any(MethodType.GRAHAN_SCAN, x)


def hull_switches():
    h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(1.0, 3.0), Vector2D(2.0, 1.0), Vector2D(7.0, 5.0)])
    for kind in (MethodType.WRAPPING_METHOD, MethodType.GRAHAN_SCAN, MethodType.DIRECT_METHOD,
                 MethodType.WRAPPING_METHOD, MethodType.DIRECT_METHOD, MethodType.GRAHAN_SCAN):
        _hull_fresh(h, kind, "a hull computed by another method")


def _hull_moves(kind):
    """every input point is a vertex, before and after"""
    h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(1.0, 3.0)])
    h.compute(kind)
    h.input_points_()[1].assign(6.0, 2.0)
    _hull_fresh(h, kind, "a hull with its vertex moved")
    h.input_points_()[2] = Vector2D(-5.0, 4.0)
    _hull_fresh(h, kind, "a hull with its vertex replaced")
    h.input_points_().append(Vector2D(3.0, 30.0))
    _hull_fresh(h, kind, "a hull with a vertex appended")
    h.input_points_()[3].assign(1.0, 1.5)
    _hull_fresh(h, kind, "a hull with a vertex moved inside")
    h.input_points_().pop()
    h.input_points_().pop()
    h.compute(kind)
    check(len(h.vertices()) == 0 and len(h.edges()) == 0, "a hull left with two points")


def hull_moves_wrap():
    _hull_moves(MethodType.WRAPPING_METHOD)


def hull_moves_scan():
    _hull_moves(MethodType.GRAHAN_SCAN)


def hull_moves_direct():
    _hull_moves(MethodType.DIRECT_METHOD)


def hull_moved_any(x: Vec):
    assume(x.x() > 2.0 and x.y() > 2.0 and x.x() < 20.0 and x.y() < 20.0)
    h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(1.0, 3.0)])
    h.compute()
    h.input_points_()[1].assign(x.x(), x.y())
    _hull_fresh(h, MethodType.WRAPPING_METHOD, "a hull with its vertex moved anywhere")


# small and large changes of one component, by every route

def _flat(r):
    if isinstance(r, (bool, int, float, str)):
        return [r]
    if isinstance(r, (list, tuple)):
        out = [len(r)]
        for v in r:
            out += _flat(v)
        return out
    if isinstance(r, Vector2D):
        return [r.x(), r.y(), r.is_valid()]
    if isinstance(r, AngleDeg):
        return [r.degree()]
    if isinstance(r, Line2D):
        return [r.a(), r.b(), r.c()]
    if isinstance(r, Segment2D):
        return _flat((r.origin(), r.terminal()))
    if isinstance(r, Size2D):
        return [r.length(), r.width()]
    if isinstance(r, Rect2D):
        return [r.left(), r.top(), r.right(), r.bottom()]
    if isinstance(r, Circle2D):
        return _flat((r.center(), r.radius()))
    if isinstance(r, Polygon2D):
        return _flat(r.vertices())
    if isinstance(r, Matrix2D):
        return [r.m11(), r.m12(), r.m21(), r.m22(), r.dxtf(), r.dytf()]
    return []


def _moved(make, changes, queries, base, what, steps=(0.0004, -0.00004, 1.0, 0.0)):
    """every query of an object that was asked, then changed in one component (by each route), as of a new object"""
    for change in changes:
        for i in range(len(base)):
            for d in steps:
                args = base[:i] + (base[i] + d if d else -base[i],) + base[i + 1:]
                o = make(*base)
                for q in queries:
                    q(o)
                change(o, *args)
                f = make(*args)
                for q in queries:
                    u, v = _flat(q(o)), _flat(q(f))
                    check(len(u) == len(v), what + " after one component changed (number of results)")
                    if len(u) == len(v):
                        for a, b in zip(u, v):
                            check(close(a, b), what + " after one component changed")


def _in_two(o, x, y):
    o.set_x(x)
    o.set_y(y)


def moved_vector():
    w = Vector2D(2.0, -7.0)
    _moved(lambda x, y: Vector2D(x, y), (lambda o, x, y: o.assign(x, y), lambda o, x, y: o.set_vector(Vector2D(x, y)), _in_two),
           (lambda v: v.r(), lambda v: v.r2(), lambda v: v.th(), lambda v: v.dist(w), lambda v: w.dist2(v), lambda v: v.inner_product(w),
            lambda v: v.outer_product(w), lambda v: v + w, lambda v: v.normalize_vector(), lambda v: v.rotated_vector(20.0),
            lambda v: v == Vector2D(3.0, 5.0), lambda v: v.equals_weakly(Vector2D(3.0, 5.0)), lambda v: v.abs(), lambda v: v.copy()),
           (3.0, 5.0), "a vector")


def _plus(o, d):
    o += d - o.degree()


def moved_angle():
    _moved(lambda d: AngleDeg(d), (lambda o, d: o.set_degree(d), lambda o, d: o.set_angle(AngleDeg(d)), _plus),
           (lambda a: a.degree(), lambda a: a.radian(), lambda a: a.cos(), lambda a: a.sin(), lambda a: a.tan(), lambda a: a.abs(),
            lambda a: a.reverse_angle(), lambda a: a + 30.0, lambda a: a.is_left_of(20.0002), lambda a: a.is_right_of(20.0002),
            lambda a: a.is_within(20.0001, 40.0), lambda a: AngleDeg.bisect(a, AngleDeg(50.0)), lambda a: a == AngleDeg(20.0),
            lambda a: Vector2D.from_polar(2.0, a), lambda a: float(a), lambda a: a.get_normalized()),
           (20.0,), "an angle", (0.0004, -0.00004, 1.0, 0.0, 90.0, 180.0, -100.0))


def _ends(o, x, y, p, q):
    o.origin_().assign(x, y)
    o.terminal_().assign(p, q)


def moved_segment():
    w = Vector2D(5.0, 2.0)
    _moved(lambda x, y, p, q: Segment2D(x, y, p, q), (lambda o, *g: o.assign(*g), _ends),
           (lambda s: s.length(), lambda s: s.direction(), lambda s: s.line(), lambda s: s.dist(w), lambda s: s.farthest_dist(w),
            lambda s: s.nearest_point(w), lambda s: s.projection(w), lambda s: s.is_valid(), lambda s: s.reversed_segment(),
            lambda s: s.perpendicular_bisector()),
           (3.0, 5.0, 8.0, 6.0), "a segment")


def moved_segment_crossing():
    t = Segment2D(5.0, 2.0, 5.0, 11.0)
    _moved(lambda x, y, p, q: Segment2D(x, y, p, q), (_ends,),
           (lambda s: s.exist_intersection(t), lambda s: t.exist_intersection(s), lambda s: s.intersection(t)),
           (3.0, 5.0, 8.0, 6.0), "crossings of a segment", (0.0004, 1.0))


def moved_segment_assigned():
    t = Segment2D(5.0, 2.0, 5.0, 11.0)
    _moved(lambda x, y, p, q: Segment2D(x, y, p, q), (lambda o, *g: o.assign(*g),),
           (lambda s: s.exist_intersection(t), lambda s: s.intersection(t)),
           (3.0, 5.0, 8.0, 6.0), "crossings of an assigned segment", (0.0004, -7.0))


def moved_segment_points():
    _moved(lambda x, y, p, q: Segment2D(x, y, p, q), (_ends,),
           (lambda s: s.contains(Vector2D(5.0, 5.4)), lambda s: s.on_segment(Vector2D(5.5, 5.5)),
            lambda s: s == Segment2D(3.0, 5.0, 8.0, 6.0), lambda s: s.equals_weakly(Segment2D(3.0, 5.0, 8.0, 6.0))),
           (3.0, 5.0, 8.0, 6.0), "points of a segment", (0.0004, 1.0))


def _ray_parts(o, x, y, d):
    o.origin_().assign(x, y)
    o.dir_().set_degree(d)


def moved_ray():
    _moved(lambda x, y, d: Ray2D(Vector2D(x, y), d), (_ray_parts,),
           (lambda r: r.origin(), lambda r: r.dir(), lambda r: r.line(), lambda r: r.in_right_dir(Vector2D(9.0, 7.0), 0.5),
            lambda r: r.intersection(Line2D(1.0, 0.1, -9.0)), lambda r: r.intersection(Ray2D(Vector2D(9.0, 6.0), 100.0)),
            lambda r: r == Ray2D(Vector2D(3.0, 5.0), 20.0)),
           (3.0, 5.0, 20.0), "a ray")


def _set_corners(o, x, y, p, q, a, b):
    o.a_().assign(x, y)
    o.b_().assign(p, q)
    o.c_().assign(a, b)


def moved_triangle():
    _moved(lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b)),
           (lambda o, x, y, p, q, a, b: o.assign(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b)), _set_corners),
           (lambda t: t.area(), lambda t: t.signed_area(), lambda t: t.double_signed_area(), lambda t: t.ccw(), lambda t: t.centroid(),
            lambda t: t.contains(Vector2D(5.0, 4.0)), lambda t: t.is_valid(), lambda t: (t.a(), t.b(), t.c())),
           (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "a triangle")


def moved_triangle_centers():
    _moved(lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b)), (_set_corners,),
           (lambda t: t.circumcenter(), lambda t: t.orthocenter()),
           (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "the centres of a triangle", (0.0004, 1.0))


def _rect_parts(o, x, y, l, w):
    o.top_left_().assign(x, y)
    o.size_().assign(l, w)


def _rect_sides(o, x, y, l, w):
    o.move_left(x)
    o.move_top(y)
    o.set_length(l)
    o.set_width(w)


def moved_rect():
    _moved(lambda x, y, l, w: Rect2D(x, y, l, w), (lambda o, *g: o.assign(*g), _rect_parts, _rect_sides),
           (lambda r: r, lambda r: r.area(), lambda r: r.center(), lambda r: r.size(), lambda r: r.contains(Vector2D(8.0, 6.0)),
            lambda r: r.bottom_right(), lambda r: r.is_valid()),
           (3.0, 5.0, 5.0, 2.0), "a rectangle", (0.0004, -0.00004, 1.0))


def moved_rect_edges():
    _moved(lambda x, y, l, w: Rect2D(x, y, l, w), (_rect_parts,),
           (lambda r: r.top_right(), lambda r: r.right_edge(), lambda r: r.bottom_edge(),
            lambda r: r.contains_almost(Vector2D(8.0, 6.0), 0.0005),
            lambda r: len(r.intersection(Line2D(Vector2D(0.0, 5.5), Vector2D(9.0, 5.75))))),
           (3.0, 5.0, 5.0, 2.0), "the edges of a rectangle", (0.0004, 1.0))


def moved_rect_pairs():
    w = Rect2D(4.0, 4.0, 3.0, 3.0)
    _moved(lambda x, y, l, w: Rect2D(x, y, l, w), (_rect_parts,),
           (lambda r: r.intersected(w), lambda r: r.united(w), lambda r: w.united(r)),
           (3.0, 5.0, 5.0, 2.0), "a rectangle joined with another", (0.0004, 1.0))


def _size_parts(o, l, w):
    o.set_length(l)
    o.set_width(w)


def moved_size():
    _moved(lambda l, w: Size2D(l, w), (lambda o, *g: o.assign(*g), _size_parts),
           (lambda s: s.length(), lambda s: s.width(), lambda s: s.diagonal(), lambda s: s.is_valid(), lambda s: s == Size2D(5.0, 2.0)),
           (5.0, 2.0), "a size")


def moved_circle():
    d = Circle2D(Vector2D(6.0, 6.0), 2.0)
    _moved(lambda x, y, r: Circle2D(Vector2D(x, y), r), (lambda o, x, y, r: o.assign(Vector2D(x, y), r),),
           (lambda c: c.area(), lambda c: c.radius(), lambda c: c.center(), lambda c: c.contains(Vector2D(5.0, 4.0)),
            lambda c: len(c.intersection(Line2D(Vector2D(0.0, 4.0), Vector2D(9.0, 4.0)))), lambda c: len(c.intersection(d)),
            lambda c: len(d.intersection(c))),
           (3.0, 5.0, 2.5), "a circle")


def moved_circle_center():
    o = Circle2D(Vector2D(3.0, 5.0), 2.5)
    for x, y in ((3.0004, 5.0), (3.0, 4.99996), (7.0, 5.0), (-3.0, 5.0)):
        o.contains(Vector2D(5.0, 4.0))
        o.center()
        str(o)
        o.center_().assign(x, y)
        f = Circle2D(Vector2D(x, y), 2.5)
        check(close(o.center().x(), f.center().x()) and close(o.center().y(), f.center().y()) and close(o.radius(), f.radius()) and close(o.area(), f.area()), "a circle after its centre moved")
        check(o.contains(Vector2D(5.0, 4.0)) == f.contains(Vector2D(5.0, 4.0)), "contains after the centre moved")
        check(str(o) == str(f), "text after the centre moved")


def _sector_parts(o, x, y, d, e):
    o.center_().assign(x, y)
    o.angle_left_start_().set_degree(d)
    o.angle_right_end_().set_degree(e)


def moved_sector():
    _moved(lambda x, y, d, e: Sector2D(Vector2D(x, y), 1.0, 2.0, AngleDeg(d), AngleDeg(e)),
           (lambda o, x, y, d, e: o.assign(Vector2D(x, y), 1.0, 2.0, AngleDeg(d), AngleDeg(e)), _sector_parts),
           (lambda s: s.area(), lambda s: s.get_circumference_min(), lambda s: s.get_circumference_max(), lambda s: s.center(),
            lambda s: s.angle_left_start(), lambda s: s.angle_right_end(), lambda s: s.contains(Vector2D(4.25, 6.0)),
            lambda s: s == Sector2D(Vector2D(3.0, 5.0), 1.0, 2.0, AngleDeg(-20.0), AngleDeg(70.0))),
           (3.0, 5.0, -20.0, 70.0), "a sector")


def moved_sector_radii():
    _moved(lambda a, b: Sector2D(Vector2D(3.0, 5.0), a, b, AngleDeg(-20.0), AngleDeg(70.0)),
           (lambda o, a, b: o.assign(Vector2D(3.0, 5.0), a, b, AngleDeg(-20.0), AngleDeg(70.0)),),
           (lambda s: s.area(), lambda s: s.get_circumference_min(), lambda s: s.get_circumference_max(), lambda s: s.radius_min(),
            lambda s: s.radius_max(), lambda s: s.contains(Vector2D(4.0, 5.0)), lambda s: s.contains(Vector2D(5.0, 5.0))),
           (1.0, 2.0), "the radii of a sector")


def _vertices(o, *g):
    for i in range(0, len(g), 2):
        o.vertices_()[i // 2].assign(g[i], g[i + 1])


def moved_polygon():
    _moved(lambda *g: Polygon2D([Vector2D(g[i], g[i + 1]) for i in range(0, 8, 2)]), (_vertices,),
           (lambda p: p.area(), lambda p: p.is_clockwise(), lambda p: p.get_bounding_box(), lambda p: p.bounding_box_center(),
            lambda p: p.vertices()),
           (3.0, 5.0, 8.0, 6.0, 9.0, 9.0, 4.0, 8.0), "a polygon", (0.0004, 3.0))


def moved_polygon_points():
    _moved(lambda x, y: Polygon2D([Vector2D(3.0, 5.0), Vector2D(8.0, 6.0), Vector2D(x, y), Vector2D(4.0, 8.0)]),
           (lambda o, x, y: o.vertices_()[2].assign(x, y),),
           (lambda p: p.contains(Vector2D(8.5, 7.51)), lambda p: p.contains(Vector2D(5.0, 7.0))), (9.0, 9.0), "points of a polygon", (-0.2, 0.0))


def moved_polygon_dist():
    _moved(lambda x, y: Polygon2D([Vector2D(3.0, 5.0), Vector2D(8.0, 6.0), Vector2D(x, y), Vector2D(4.0, 8.0)]),
           (lambda o, x, y: o.vertices_()[2].assign(x, y),),
           (lambda p: p.dist(Vector2D(9.0, 12.0)), lambda p: p.dist(Vector2D(8.0, 8.0), False),
            lambda p: p.get_rectangle_clipped_polygon(Rect2D(0.0, 0.0, 6.0, 20.0))),
           (9.0, 9.0), "distance and clipping of a polygon", (0.0004, 1.0))


def _mat_moves(o, a, b, c, d, x, y):
    o.reset()
    o *= Matrix2D(a, b, c, d, x, y)


def moved_matrix():
    v = Vector2D(2.0, -7.0)
    n = Matrix2D(1.0, 3.0, -2.0, 1.0, 4.0, 0.0)
    _moved(lambda *g: Matrix2D(*g), (lambda o, *g: o.assign(*g), _mat_moves),
           (lambda m: m, lambda m: m.det(), lambda m: m.invertible(), lambda m: m.inverted(), lambda m: m.transform(v), lambda m: m * v,
            lambda m: m * n, lambda m: n * m, lambda m: m == Matrix2D(3.0, 5.0, 2.0, 4.0, -1.0, 6.0)),
           (3.0, 5.0, 2.0, 4.0, -1.0, 6.0), "a matrix")


def moved_hull():
    for x, y in ((4.0004, 0.5), (4.0, 0.49996), (9.0, 0.5), (-4.0, 0.5)):
        for t in (MethodType.DIRECT_METHOD, MethodType.WRAPPING_METHOD, MethodType.GRAHAN_SCAN):
            ps = [Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(5.0, 3.0), Vector2D(1.0, 3.5)]
            h = ConvexHull(ps)
            h.compute(t)
            h.vertices()
            h.edges()
            h.to_polygon().area()
            ps[1].assign(x, y)
            h.compute(t)
            f = ConvexHull([Vector2D(0.0, 0.0), Vector2D(x, y), Vector2D(5.0, 3.0), Vector2D(1.0, 3.5)])
            f.compute(t)
            check(len(h.vertices()) == len(f.vertices()), "a hull computed again after a point moved (number of vertices)")
            check(close(h.to_polygon().area(), f.to_polygon().area()), "a hull computed again after a point moved")
            check(len(h.edges()) == len(f.edges()), "a hull computed again after a point moved (number of edges)")
