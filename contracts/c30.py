"""no query on finite operands raises, degenerate operands included"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.convex_hull import ConvexHull, MethodType
from pyrusgeom import soccer_math


def _num(v, what):
    check(v == v, what + " is a number")


def _two(v, what):
    check(v.x() == v.x() and v.y() == v.y(), what + " is a vector")


def _few(ps, n, what):
    check(len(ps) <= n, what + ": not too many points")


def _bit(b, what):
    check(b or not b, what + " answers")


# vectors

def vector_direction(p: Vec):
    _num(p.th().degree(), "the direction of any vector")
    _num(p.dir().degree(), "the direction of any vector")


def vector_lengths(p: Vec, q: Vec):
    _num(p.r(), "the length")
    _num(p.dist(q), "a distance")
    _two(p.abs(), "absolute values")


def vector_zero_direction():
    check(close(Vector2D(0.0, 0.0).th().degree(), 0.0), "the direction of the zero vector is 0")
    check(close(Vector2D().dir().degree(), 0.0), "the direction of the default vector is 0")


def vector_set_length(p: Vec, c: Real):
    p.set_length(c)
    _two(p, "set_length")


def vector_set_length_zero(c: Real):
    p = Vector2D(0.0, 0.0)
    p.set_length(c)
    check(close((p.x(), p.y()), (0.0, 0.0)), "the zero vector has no direction to be scaled along")
    q = Vector2D(0.0, 0.0).set_length_vector(c)
    check(close((q.x(), q.y()), (0.0, 0.0)), "the zero vector has no direction to be scaled along (copy)")


def vector_normalize(p: Vec):
    _two(p.normalize_vector(), "normalize_vector")
    _two(p.set_length_vector(2.0), "set_length_vector")
    p.normalize()
    _two(p, "normalize")


def vector_normalize_zero():
    p = Vector2D(0.0, 0.0)
    p.normalize()
    check(close((p.x(), p.y()), (0.0, 0.0)), "normalizing the zero vector")
    q = Vector2D(0.0, 0.0).normalize_vector()
    check(close((q.x(), q.y()), (0.0, 0.0)), "normalizing a copy of the zero vector")


def vector_rotate(p: Vec, d: Real):
    _two(p.rotated_vector(d), "rotated_vector")
    _two(p.rotated_vector(AngleDeg(d)), "rotated_vector by an angle")
    p.set_dir(d)
    _two(p, "set_dir")
    _two(Vector2D.from_polar(p.x(), d), "from_polar")


# angles

def angle_any(d: Real):
    a = AngleDeg(d)
    _num(a.radian(), "radian")
    _num(a.cos(), "cos")
    _num(a.sin(), "sin")
    _num(a.abs(), "abs")
    _num(a.reverse_angle().degree(), "reverse_angle")
    _num(AngleDeg.cos_deg(d), "cos_deg")
    _num(AngleDeg.sin_deg(d), "sin_deg")


def angle_inverse(v: Real):
    _num(AngleDeg.acos_deg(v), "acos_deg of any number")
    _num(AngleDeg.asin_deg(v), "asin_deg of any number")


def angle_inverse_ends(v: NonNeg):
    check(close(AngleDeg.acos_deg(1.0 + v), 0.0), "acos_deg above the domain")
    check(close(AngleDeg.acos_deg(-1.0 - v), 180.0), "acos_deg below the domain")
    check(close(AngleDeg.asin_deg(1.0 + v), 90.0), "asin_deg above the domain")
    check(close(AngleDeg.asin_deg(-1.0 - v), -90.0), "asin_deg below the domain")


def angle_atan(v: Real):
    _num(AngleDeg.atan_deg(v), "atan_deg")


def angle_atan2(y: Real, x: Real):
    _num(AngleDeg.atan2_deg(y, x), "atan2_deg")


def angle_atan2_origin():
    check(close(AngleDeg.atan2_deg(0.0, 0.0), 0.0), "atan2_deg of the origin is 0")


def angle_relations(a: Deg, b: Deg, c: Deg):
    _bit(AngleDeg(a).is_within(AngleDeg(b), AngleDeg(c)), "is_within")
    _bit(AngleDeg(a).is_left_of(b), "is_left_of")
    _bit(AngleDeg(a).is_right_equal_of(b), "is_right_equal_of")
    _num(AngleDeg.bisect(a, b).degree(), "bisect")


# lines

def line_any(a: Real, b: Real, c: Real, p: Vec):
    n = Line2D(a, b, c)
    _num(n.get_x(p.y()), "get_x of any line")
    _num(n.get_y(p.x()), "get_y of any line")
    n.perpendicular(p)
    _two(n.projection(p), "the projection on any line")


def line_zero(c: Real, p: Vec):
    n = Line2D(0.0, 0.0, c)
    check(not n.projection(p).is_valid(), "a line without direction has no projections")
    check(n.is_parallel(Line2D(1.0, 2.0, 3.0)), "a line without direction crosses nothing")
    check(not n.intersection(Line2D(1.0, 2.0, 3.0)).is_valid(), "a line without direction meets nothing")


def line_intersections(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    _two(Line2D(a, b, c).intersection(Line2D(d, e, f)), "the intersection of any lines")


def line_dist(a: Real, b: Real, c: Real, p: Vec):
    assume(a != 0.0 or b != 0.0)
    n = Line2D(a, b, c)
    _num(n.dist(p), "the distance from any line with a direction")
    _num(n.dist2(p), "the squared distance from any line with a direction")


def line_points(p: Vec, q: Vec, x: Vec):
    n = Line2D(p, q)
    _two(n.projection(x), "the projection on a line through any points")
    _num(n.get_y(x.x()), "get_y of a line through any points")


def line_same_points(p: Vec, x: Vec):
    check(not Line2D(p, p).projection(x).is_valid(), "a line through one point has no projections")
    check(not Line2D(p, p).intersection(Line2D(p, x)).is_valid(), "a line through one point meets nothing")


def line_bisector(p: Vec, q: Vec):
    n = Line2D.perpendicular_bisector(p, q)
    _num(n.a(), "the bisector of any points")


def line_bisector_same(p: Vec):
    n = Line2D.perpendicular_bisector(p, p)
    check(not (n.a() == 0.0 and n.b() == 0.0), "the bisector of one point still has a direction")


# rays

def ray_same_points(p: Vec, x: Vec):
    r = Ray2D(p, p)
    check(close(r.dir().degree(), 0.0), "a ray through one point has direction 0")
    _bit(r.in_right_dir(x), "in_right_dir of a ray through one point")


def ray_lines(p: Vec, d: Deg, a: Real, b: Real, c: Real):
    _two(Ray2D(p, d).intersection(Line2D(a, b, c)), "the intersection of a ray with any line")


def ray_line_zero(p: Vec, d: Deg, c: Real):
    check(not Ray2D(p, d).intersection(Line2D(0.0, 0.0, c)).is_valid(), "a ray misses a line without direction")


def ray_rays(p: Vec, d: Deg, q: Vec):
    check(not Ray2D(p, d).intersection(Ray2D(q, d)).is_valid(), "parallel rays do not meet")
    check(not Ray2D(p, d).intersection(Ray2D(p, d)).is_valid(), "a ray does not cross itself")


def ray_right_dir(p: Vec, d: Deg, x: Vec):
    _bit(Ray2D(p, d).in_right_dir(x), "in_right_dir of any point")
    _bit(Ray2D(p, d).in_right_dir(p), "in_right_dir of the origin")


# segments

def segment_any(p: Vec, q: Vec, x: Vec):
    s = Segment2D(p, q)
    _num(s.length(), "length")
    _num(s.direction().degree(), "direction")
    _two(s.projection(x), "projection")
    _two(s.nearest_point(x), "nearest_point")
    _num(s.dist(x), "distance")
    _num(s.farthest_dist(x), "farthest_dist")


def segment_tests(p: Vec, q: Vec, x: Vec):
    s = Segment2D(p, q)
    _bit(s.contains(x), "contains")
    _bit(s.on_segment(x), "on_segment")
    _bit(s.on_segment_weakly(x), "on_segment_weakly")


def segment_point(p: Vec, x: Vec):
    s = Segment2D(p, p)
    check(close(s.length(), 0.0), "the length of one point")
    check(close((s.nearest_point(x).x(), s.nearest_point(x).y()), (p.x(), p.y())), "the nearest point of one point")
    check(close(s.dist(x), p.dist(x)), "the distance from one point")
    check(close(s.farthest_dist(x), p.dist(x)), "the farthest distance of one point")
    n = s.perpendicular_bisector()
    _num(n.a(), "the bisector of one point")


def segment_segment(p: Vec, q: Vec, r: Vec, s: Vec):
    _bit(Segment2D(p, q).exist_intersection(Segment2D(r, s)), "exist_intersection")
    _bit(Segment2D(p, q).exist_intersection_except_endpoint(Segment2D(r, s)), "exist_intersection_except_endpoint")


def segment_lines(p: Vec, q: Vec, a: Real, b: Real, c: Real):
    _two(Segment2D(p, q).intersection(Line2D(a, b, c)), "the intersection of a segment with any line")


def segment_crossings(p: Vec, q: Vec, r: Vec, s: Vec):
    _two(Segment2D(p, q).intersection(Segment2D(r, s)), "the intersection of any segments")


def segment_points_crossing(p: Vec, r: Vec, s: Vec):
    check(not Segment2D(p, p).intersection(Segment2D(r, s)).is_valid(), "one point crosses no segment")
    check(not Segment2D(r, s).intersection(Segment2D(p, p)).is_valid(), "no segment crosses one point")


def segment_points_distance(p: Vec, x: Vec):
    check(close(Segment2D(p, p).dist(Segment2D(x, x)), p.dist(x)), "the distance of two points")


# circles

def circle_lines(o: Vec, r: Real, a: Real, b: Real, c: Real):
    _few(Circle2D(o, r).intersection(Line2D(a, b, c)), 2, "a circle and any line")


def circle_point(o: Vec, a: Real, b: Real, c: Real):
    _few(Circle2D(o, 0.0).intersection(Line2D(a, b, c)), 2, "a circle without radius and any line")


def circle_circles(o: Vec, r: Real, p: Vec, q: Real):
    _few(Circle2D(o, r).intersection(Circle2D(p, q)), 2, "any two circles")


def circle_itself(o: Vec, r: Real):
    c = Circle2D(o, r)
    check(len(c.intersection(c)) == 0, "a circle has no crossings with itself")
    check(len(c.intersection(Circle2D(o, r))) == 0, "equal circles have no crossings")


def circle_segment_point(o: Vec, r: Real, p: Vec):
    check(len(Circle2D(o, r).intersection(Segment2D(p, p))) == 0, "a circle and one point do not cross")


def circle_points(p: Vec, q: Vec, x: Vec):
    assume(abs(p.x() - q.x()) > 0.000002 or abs(p.y() - q.y()) > 0.000002)
    check(close(Circle2D.circum_circle(p, p, q).radius(), 0.0), "no circle through two points")
    check(close(Circle2D.circum_circle(p, p, p).radius(), 0.0), "no circle through one point")
    check(not Circle2D.circum_circle_contains(x, p, p, q), "no circle through two points contains a point")


def circle_three(p: Vec, q: Vec, r: Vec, x: Vec):
    _num(Circle2D.circum_circle(p, q, r).radius(), "the circle of any points")
    _bit(Circle2D.circum_circle_contains(x, p, q, r), "the circle of any points")


def circle_negative(o: Vec, r: Neg):
    c = Circle2D(o, r)
    check(close(c.radius(), 0.0), "a negative radius is none")
    check(close(c.area(), 0.0), "a circle without radius has no area")
    check(not c.contains(o), "a circle without radius contains nothing")


# triangles

def triangle_measures(p: Vec, q: Vec, r: Vec, x: Vec):
    t = Triangle2D(p, q, r)
    _num(t.area(), "area")
    _bit(t.ccw(), "ccw")
    _bit(t.contains(x), "contains")
    _two(t.centroid(), "centroid")


def triangle_circumcenter(p: Vec, q: Vec, r: Vec):
    _two(Triangle2D(p, q, r).circumcenter(), "circumcenter of any points")


def triangle_orthocenter(p: Vec, q: Vec, r: Vec):
    _two(Triangle2D(p, q, r).orthocenter(), "orthocenter of any points")


def triangle_incenter(p: Vec, q: Vec, r: Vec):
    _two(Triangle2D(p, q, r).incenter(), "incenter of any points")


def triangle_point(p: Vec, x: Vec):
    t = Triangle2D(p, p, p)
    check(close(t.area(), 0.0), "a triangle of one point has no area")
    check(not t.circumcenter().is_valid(), "a triangle of one point has no circumcenter")
    _two(t.incenter(), "the incenter of one point")
    _two(t.orthocenter(), "the orthocenter of one point")
    _bit(t.contains(x), "a triangle of one point")


def triangle_line(p: Vec, u: Vec, k: Real):
    t = Triangle2D(p, p + u, p + u * k)
    check(close(t.area(), 0.0), "a flat triangle has no area")


def triangle_lines(a: Real, b: Real, c: Real, p: Vec):
    check(Triangle2D(p, p, p).intersection(Line2D(a, b, c))[0] == 0, "a triangle of one point and any line")


# rectangles

def rect_any(p: Vec, a: Real, b: Real, x: Vec):
    r = Rect2D(p, a, b)
    _num(r.area(), "area")
    _bit(r.contains(x), "contains")
    _two(r.center(), "center")
    _bit(r.contains_almost(x, 0.1), "contains_almost")


def rect_empty_line(p: Vec, a: Real, b: Real, c: Real):
    _few(Rect2D(p, 0.0, 0.0).intersection(Line2D(a, b, c)), 2, "an empty rectangle and any line")


def rect_line(a: Real, b: Real, c: Real):
    _few(Rect2D(-3.0, -2.0, 6.0, 4.0).intersection(Line2D(a, b, c)), 2, "a rectangle and any line")


def rect_rects(p: Vec, a: NonNeg, b: NonNeg, q: Vec, c: NonNeg, d: NonNeg):
    r = Rect2D(p, a, b).intersected(Rect2D(q, c, d))
    _num(r.area(), "the overlap of any rectangles")
    u = Rect2D(p, a, b).united(Rect2D(q, c, d))
    _num(u.area(), "the union of any rectangles")


# sectors, sizes, matrices

def sector_any(o: Vec, m: Real, n: Real, a: Deg, b: Deg, x: Vec):
    s = Sector2D(o, m, n, a, b)
    _num(s.area(), "area")
    _num(s.get_circumference_min(), "get_circumference_min")
    _num(s.get_circumference_max(), "get_circumference_max")
    _bit(s.contains(x), "contains")
    _bit(s.contains(o), "contains its center")


def size_any(a: Real, b: Real):
    _num(Size2D(a, b).diagonal(), "diagonal")


def matrix_any(a: Real, b: Real, c: Real, d: Real, x: Real, y: Real, p: Vec):
    m = Matrix2D(a, b, c, d, x, y)
    _num(m.det(), "det")
    _bit(m.invertible(), "invertible")
    _num(m.inverted().m11(), "inverted")
    _two(m.transform(p), "transform")


def matrix_singular(a: Real, b: Real, k: Real, x: Real, y: Real):
    m = Matrix2D(a, b, a * k, b * k, x, y)
    check(not m.invertible(), "dependent rows are not invertible")
    i = m.inverted()
    check(i == Matrix2D(), "the inverse of a singular matrix is the identity")


# polygons and hulls

def polygon_empty(x: Vec):
    g = Polygon2D([])
    check(not g.contains(x), "an empty polygon contains nothing")
    check(close(g.area(), 0.0), "an empty polygon has no area")
    _two(g.bounding_box_center(), "the bounding box center of an empty polygon")
    _num(g.get_bounding_box().area(), "the bounding box of an empty polygon")
    check(not g.is_clockwise(), "an empty polygon has no orientation")
    check(not g.is_counter_clockwise(), "an empty polygon has no orientation")
    _num(g.get_rectangle_clipped_polygon(Rect2D(0.0, 0.0, 1.0, 1.0)).area(), "clipping an empty polygon")


def polygon_cleared(p: Vec, q: Vec, x: Vec):
    g = Polygon2D([p, q])
    g.clear()
    _bit(g.contains(x), "contains of a cleared polygon")
    check(close(g.area(), 0.0), "a cleared polygon has no area")
    _two(g.bounding_box_center(), "the bounding box center of a cleared polygon")


def polygon_small(p: Vec, q: Vec, x: Vec):
    check(close(Polygon2D([p]).area(), 0.0), "one point has no area")
    check(close(Polygon2D([p, q]).area(), 0.0), "two points have no area")
    _num(Polygon2D([p]).dist(x), "the distance from one point")
    _num(Polygon2D([p, q]).dist(x), "the distance from two points")
    _bit(Polygon2D([p]).contains(x), "one point")
    _bit(Polygon2D([p, p, p]).contains(p), "the same point three times")


def polygon_contains(p: Vec):
    g = Polygon2D([p, Vector2D(4.0, 1.0), Vector2D(1.0, 4.0)])
    _bit(g.contains(Vector2D(1.0, 1.0)), "contains")
    _bit(g.contains(Vector2D(1.0, 1.0), False), "contains without the outline")


def polygon_contains_point(x: Vec):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(1.0, 4.0)])
    _bit(g.contains(x), "contains of any point")
    _bit(g.contains(x, False), "contains of any point without the outline")
    _num(g.dist(x), "the distance of any point")


def polygon_repeated(x: Vec, p: Vec):
    g = Polygon2D([p, p, p])
    _bit(g.contains(x), "contains of one point three times")
    _num(g.dist(x), "the distance of one point three times")
    _num(g.get_bounding_box().area(), "the bounding box of one point")


def hull_small(p: Vec, q: Vec):
    for k in (MethodType.DIRECT_METHOD, MethodType.WRAPPING_METHOD, MethodType.GRAHAN_SCAN):
        h = ConvexHull([])
        h.compute(k)
        check(len(h.vertices()) == 0, "the hull of nothing")
        check(len(h.edges()) == 0, "the hull of nothing has no edges")
        h = ConvexHull([p])
        h.compute(k)
        _few(h.vertices(), 1, "the hull of one point")
        h = ConvexHull([p, q])
        h.compute(k)
        _few(h.vertices(), 2, "the hull of two points")


# soccer formulas

def soccer_formulas(a: Real, b: Real, c: Real, d: Deg, p: Vec):
    _num(soccer_math.bound(a, b, c), "bound")
    _num(soccer_math.min_max(a, b, c), "min_max")
    _num(soccer_math.dir_rate(d, 0.6, 0.4), "dir_rate")
    _num(soccer_math.r_int(a), "r_int")
    _num(soccer_math.inertia_n_step_distance(a, 3, 0.5), "inertia_n_step_distance")
    _two(soccer_math.inertia_n_step_point(p, p, 3, 0.5), "inertia_n_step_point")
    _num(soccer_math.kick_rate(a, b, 0.5, 0.1, 0.2, 0.3), "kick_rate")


def soccer_nonneg(s: NonNeg, m: NonNeg, i: NonNeg):
    _num(soccer_math.effective_turn(m, s, i), "effective_turn")


def soccer_quantize(v: Real, q: Pos):
    _num(soccer_math.quantize(v, q), "quantize")
    _num(soccer_math.unquantize_min(v, q), "unquantize_min")
    _num(soccer_math.unquantize_max(v, q), "unquantize_max")


def soccer_quantize_dist(v: NonNeg, q: Pos):
    _num(soccer_math.quantize_dist(v, q), "quantize_dist")


def soccer_series(s: Real, n: Pos):
    _num(soccer_math.calc_first_term_geom_series(s, 0.9, 3), "calc_first_term_geom_series")
    _num(soccer_math.calc_length_geom_series(n, s, 0.9), "calc_length_geom_series")


def sector_negative(o: Vec, m: Neg, n: Neg, a: DegOpen, b: DegOpen):
    s = Sector2D(o, m, n, a, b)
    check(close((s.area(), s.get_circumference_min(), s.get_circumference_max()), (0.0, 0.0, 0.0)), "negative radii give no area and no arcs")
