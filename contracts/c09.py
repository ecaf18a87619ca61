"""the same call gives the same result, whatever happened before"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D, XLessEqual, XMoreEqual, YLessEqual, YMoreEqual
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.convex_hull import ConvexHull, MethodType, angle_sort_predicate
from pyrusgeom import soccer_math


def _vec(v, x, y, what):
    check(close((v.x(), v.y()), (x, y)), what)


def _again(call, other, what):
    """a call with a vector result, after another call and after its own result was spoiled, compared with
    the same call in a fresh interpreter"""
    o = other()
    o.assign(o.x() - 1.0, o.y() + 1.0)
    f = fresh(call)
    r = call()
    x = f.x()
    y = f.y()
    k = f.is_valid()
    check(close((r.x(), r.y()), (x, y)), what + " after other calls")
    check(r.is_valid() == k, what + " after other calls (validity)")
    r.assign(x + 3.0, y - 5.0)
    if k:
        r.invalidate()
    else:
        r.validate()
    s = call()
    check(close((s.x(), s.y()), (x, y)), what + " again")
    check(s.is_valid() == k, what + " again (validity)")


def _angle_again(call, other, what):
    o = other()
    o.set_degree(77.0)
    d = fresh(call).degree()
    r = call()
    check(close(r.degree(), d), what + " after other calls")
    r.set_degree(d / 2.0 + 10.0)
    check(close(call().degree(), d), what + " again")


def _line_again(call, other, what):
    other()
    f = fresh(call)
    r = call()
    m = (f.a(), f.b(), f.c())
    check(close((r.a(), r.b(), r.c()), m), what + " after other calls")
    s = call()
    check(close((s.a(), s.b(), s.c()), m), what + " again")


def _num_again(call, other, what):
    other()
    f = fresh(call)
    check(close(call(), f), what + " after other calls")
    check(close(call(), f), what + " again")


def _bool_again(call, other, what):
    other()
    f = fresh(call)
    check(call() == f, what + " after other calls")
    check(call() == f, what + " again")


# ----------------------------------------------------------------- defaults
def defaults_vector(x: Real, y: Real):
    v = Vector2D()
    _vec(v, 0.0, 0.0, "the default vector")
    v.assign(x, y)
    v.invalidate()
    w = Vector2D()
    _vec(w, 0.0, 0.0, "the default vector after changing another")
    check(w.is_valid(), "the default vector is valid")
    n = Vector2D.invalid()
    check(not n.is_valid(), "the invalid vector")
    n.validate()
    n.assign(x, y)
    k = Vector2D.invalid()
    check(not k.is_valid(), "the invalid vector after validating another")
    _vec(k, 0.0, 0.0, "the invalid vector after changing another")


def defaults_angle(d: Deg):
    a = AngleDeg()
    check(close(a.degree(), 0.0), "the default angle")
    a += d
    check(close(AngleDeg().degree(), 0.0), "the default angle after changing another")


def defaults_size(l: NonNeg, w: NonNeg):
    s = Size2D()
    s.assign(l, w)
    t = Size2D()
    check(close((t.length(), t.width()), (0.0, 0.0)), "the default size after changing another")
    u = Size2D(l)
    check(close((u.length(), u.width()), (l, 0.0)), "a size with a length only")


def defaults_circle(x: Real, y: Real, r: Pos):
    c = Circle2D()
    _vec(c.center(), 0.0, 0.0, "the default circle is at the origin")
    check(close(c.radius(), 0.0), "the default circle has no extent")
    c.center_().assign(x, y)
    c.center_().invalidate()
    c.assign(Vector2D(x, y), r)
    d = Circle2D()
    _vec(d.center(), 0.0, 0.0, "the default circle after changing another")
    check(d.center().is_valid(), "the default centre is valid after changing another")
    check(close(d.radius(), 0.0), "the default radius after changing another")
    e = Circle2D(radius=r)
    e.center_().assign(y, x)
    _vec(Circle2D(radius=r).center(), 0.0, 0.0, "the default centre with a given radius")


def defaults_segment(x: Real, y: Real):
    s = Segment2D()
    s.origin_().assign(x, y)
    s.terminal_().assign(y, x)
    t = Segment2D()
    _vec(t.origin(), 0.0, 0.0, "the default segment's origin after changing another")
    _vec(t.terminal(), 0.0, 0.0, "the default segment's terminal after changing another")


def defaults_polygon(x: Real, y: Real):
    g = Polygon2D()
    g.vertices_()[0].assign(x, y)
    g.add_vertex(Vector2D(x, y))
    h = Polygon2D()
    check(len(h.vertices()) == 1, "the default polygon after changing another")
    _vec(h.vertices()[0], 0.0, 0.0, "the default polygon's vertex after changing another")
    h.clear()
    h.vertices_()[0].assign(y, x)
    g.clear()
    check(len(g.vertices()) == 1, "a cleared polygon")
    _vec(g.vertices()[0], 0.0, 0.0, "a cleared polygon's vertex")


def defaults_matrix(x: Real, y: Real):
    k = Matrix2D()
    k.translate(x, y)
    k.scale(x, y)
    j = Matrix2D()
    check(close((j.m11(), j.m12(), j.m21(), j.m22(), j.dxtf(), j.dytf()), (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)),
          "the default matrix after changing another")
    k.reset()
    check(close((k.m11(), k.m12(), k.m21(), k.m22(), k.dxtf(), k.dytf()), (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)),
          "a reset matrix")


def defaults_hull(x: Real, y: Real):
    h = ConvexHull([])
    h.add_point(Vector2D(x, y))
    g = ConvexHull([])
    check(len(g.input_points()) == 0, "an empty hull after filling another")
    check(len(g.vertices()) == 0, "an empty hull has no vertices")
    a = Vector2D(x, y)
    n = angle_sort_predicate(a, Vector2D(1.0, 0.0))
    check(angle_sort_predicate(a, Vector2D(1.0, 0.0)) == n, "the default pivot of the angular order")


# ------------------------------------------------------------------ vectors
def vectors(x: Real, y: Real, p: Real, q: Real, k: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    _again(lambda: Vector2D(x, y), lambda: Vector2D(p, q), "construction")
    _again(lambda: v + w, lambda: w + w, "v + w")
    _again(lambda: v - w, lambda: w - v, "v - w")
    _again(lambda: v * k, lambda: w * k, "v * k")
    _again(lambda: v.reverse_vector(), lambda: w.reverse_vector(), "reverse_vector")
    _again(lambda: v.abs(), lambda: w.abs(), "abs")
    _again(lambda: v.copy(), lambda: w.copy(), "copy")
    _num_again(lambda: v.dist(w), lambda: w.dist(w), "dist")
    _num_again(lambda: v.r(), lambda: w.r(), "r")
    _num_again(lambda: v.inner_product(w), lambda: w.inner_product(w), "inner_product")
    _num_again(lambda: v.outer_product(w), lambda: w.outer_product(w), "outer_product")
    _vec(v, x, y, "the operands are kept")
    check(no_effects(), "no input or output")


def vectors_polar(r: Real, d: DegOpen, s: Real, e: DegOpen):
    _again(lambda: Vector2D.from_polar(r, d), lambda: Vector2D.from_polar(s, e), "from_polar")
    _again(lambda: Vector2D.polar2vector(r, AngleDeg(d)), lambda: Vector2D.polar2vector(s, e), "polar2vector")
    v = Vector2D(r, s)
    _again(lambda: v.rotated_vector(d), lambda: v.rotated_vector(e), "rotated_vector")
    check(no_effects(), "no input or output")


def vectors_length(x: Real, y: Real, p: Real, q: Real):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    _again(lambda: v.normalize_vector(), lambda: w.normalize_vector(), "normalize_vector")
    _angle_again(lambda: v.th(), lambda: w.th(), "th")
    check(no_effects(), "no input or output")


# ------------------------------------------------------------------- angles
def angles(d: DegOpen, e: DegOpen):
    a = AngleDeg(d)
    b = AngleDeg(e)
    _angle_again(lambda: AngleDeg(d), lambda: AngleDeg(e), "construction")
    _angle_again(lambda: a + b, lambda: b + b, "a + b")
    _angle_again(lambda: a - b, lambda: b - a, "a - b")
    _angle_again(lambda: -a, lambda: -b, "-a")
    _angle_again(lambda: a.copy(), lambda: b.copy(), "copy")
    _angle_again(lambda: a.reverse_angle(), lambda: b.reverse_angle(), "reverse_angle")
    _num_again(lambda: a.cos(), lambda: b.cos(), "cos")
    _num_again(lambda: AngleDeg.sin_deg(d), lambda: AngleDeg.sin_deg(e), "sin_deg")
    check(no_effects(), "no input or output")


def angles_compared(d: DegOpen, e: DegOpen):
    a = AngleDeg(d)
    b = AngleDeg(e)
    _angle_again(lambda: AngleDeg.bisect(a, b), lambda: AngleDeg.bisect(b, a), "bisect")
    _bool_again(lambda: a.is_left_of(b), lambda: b.is_left_of(a), "is_left_of")
    _bool_again(lambda: a.is_right_of(b), lambda: b.is_right_of(a), "is_right_of")
    check(no_effects(), "no input or output")


# -------------------------------------------------------------------- lines
def lines(x: Real, y: Real, p: Real, q: Real):
    assume(x - p > 0.1)
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    o = Vector2D(x, y + 1.0)
    _line_again(lambda: Line2D(v, w), lambda: Line2D(w, o), "a line through two points")
    _line_again(lambda: Line2D.perpendicular_bisector(v, w), lambda: Line2D.perpendicular_bisector(o, v), "bisector")
    n = Line2D(v, w)
    m = Line2D(1.0, 0.0, 3.0)
    _line_again(lambda: n.perpendicular(v), lambda: m.perpendicular(w), "perpendicular")
    _again(lambda: n.projection(o), lambda: m.projection(o), "projection")
    _num_again(lambda: n.dist(o), lambda: m.dist(v), "dist")
    check(no_effects(), "no input or output")


def lines_crossing(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    n = Line2D(a, b, c)
    m = Line2D(d, e, f)
    _again(lambda: n.intersection(m), lambda: m.intersection(m), "intersection")
    check(no_effects(), "no input or output")


# ------------------------------------------------------- segments, triangles
def segments(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    t = Segment2D(Vector2D(p, q), Vector2D(a, b))
    v = Vector2D(a, b)
    _again(lambda: s.origin(), lambda: t.origin(), "origin")
    _again(lambda: s.nearest_point(v), lambda: t.nearest_point(v), "nearest_point")
    _num_again(lambda: s.length(), lambda: t.length(), "length")
    _bool_again(lambda: s.on_segment(v), lambda: t.on_segment(v), "on_segment")
    check(no_effects(), "no input or output")


def segments_projection(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    t = Segment2D(Vector2D(p, q), Vector2D(a, b))
    v = Vector2D(a, b)
    _again(lambda: s.projection(v), lambda: t.projection(v), "projection")


def segments_meeting(x: Real, y: Real, p: Real, q: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(p, q))
    t = Segment2D(Vector2D(0.0, 0.0), Vector2D(4.0, 2.0))
    _bool_again(lambda: s.exist_intersection(t), lambda: t.exist_intersection(t), "exist_intersection")
    check(no_effects(), "no input or output")


def triangles(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    t = Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    k = Triangle2D(Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(a, b))
    v = Vector2D(1.0, 1.0)
    _again(lambda: t.centroid(), lambda: k.centroid(), "centroid")
    _num_again(lambda: t.area(), lambda: k.area(), "area")
    _num_again(lambda: t.signed_area(), lambda: k.signed_area(), "signed_area")
    _bool_again(lambda: t.contains(v), lambda: k.contains(v), "contains")
    check(no_effects(), "no input or output")


def triangle_lines(y: Real, z: Real):
    t = Triangle2D(Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0))
    r = t.intersection(Line2D(0.0, 1.0, -y))
    n = r[0]
    x = r[1].x()
    r[0] = 7
    r[1].assign(9.0, 9.0)
    t.intersection(Line2D(0.0, 1.0, -z))
    s = t.intersection(Line2D(0.0, 1.0, -y))
    check(s[0] == n, "the number of crossings again")
    check(close(s[1].x(), x), "the first crossing again")


# ---------------------------------------------- rectangles, circles, sectors
def rects(x: Real, y: Real, l: Pos, w: Pos, a: Real, b: Real):
    r = Rect2D(x, y, l, w)
    s = Rect2D(a, b, l, w)
    v = Vector2D(a, b)
    _again(lambda: r.center(), lambda: s.center(), "center")
    _again(lambda: r.bottom_right(), lambda: s.bottom_right(), "bottom_right")
    _again(lambda: r.top_left(), lambda: s.top_left(), "top_left")
    _num_again(lambda: r.area(), lambda: s.area(), "area")
    _bool_again(lambda: r.contains(v), lambda: s.contains(v), "contains")
    u = r.united(s)
    m = (u.left(), u.top(), u.right(), u.bottom())
    u.assign(0.0, 0.0, 1.0, 1.0)
    s.united(s)
    u = r.united(s)
    check(close((u.left(), u.top(), u.right(), u.bottom()), m), "united again")
    check(no_effects(), "no input or output")


def rects_overlap(x: Real, y: Real, l: Pos, w: Pos):
    r = Rect2D(x, y, l, w)
    s = Rect2D(0.0, 0.0, 2.0, 2.0)
    u = r.intersected(s)
    m = (u.left(), u.top(), u.right(), u.bottom())
    u.assign(5.0, 5.0, 1.0, 1.0)
    u.top_left_().assign(4.0, 4.0)
    u.size_().assign(3.0, 3.0)
    u = r.intersected(s)
    check(close((u.left(), u.top(), u.right(), u.bottom()), m), "intersected again")


def circles(x: Real, y: Real, r: Pos, a: Real, b: Real):
    c = Circle2D(Vector2D(x, y), r)
    d = Circle2D(Vector2D(a, b), 1.0)
    v = Vector2D(a, b)
    _again(lambda: c.center(), lambda: d.center(), "center")
    _num_again(lambda: c.area(), lambda: d.area(), "area")
    _bool_again(lambda: c.contains(v), lambda: d.contains(v), "contains")
    n = Line2D(0.0, 1.0, -b)
    s = c.intersection(n)
    k = len(s)
    s.append(v)
    d.intersection(n)
    check(len(c.intersection(n)) == k, "the number of intersections again")
    check(no_effects(), "no input or output")


def sectors(x: Real, y: Real, r: Pos, d: DegOpen, e: DegOpen):
    s = Sector2D(Vector2D(x, y), 0.0, r, d, e)
    t = Sector2D(Vector2D(y, x), 0.0, r, e, d)
    _again(lambda: s.center(), lambda: t.center(), "center")
    _angle_again(lambda: s.angle_left_start(), lambda: t.angle_left_start(), "angle_left_start")
    _angle_again(lambda: s.angle_right_end(), lambda: t.angle_right_end(), "angle_right_end")
    _num_again(lambda: s.area(), lambda: t.area(), "area")
    check(no_effects(), "no input or output")


# ----------------------------------------------------------------- polygons
def polygons(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    g = Polygon2D([Vector2D(x, y), Vector2D(p, q), Vector2D(a, b)])
    h = Polygon2D([Vector2D(0.0, 0.0), Vector2D(p, q), Vector2D(x, y), Vector2D(a, b)])
    _num_again(lambda: g.double_signed_area(), lambda: h.double_signed_area(), "double_signed_area")
    _num_again(lambda: g.area(), lambda: h.area(), "area")
    _bool_again(lambda: g.is_clockwise(), lambda: h.is_clockwise(), "is_clockwise")
    r = g.get_bounding_box()
    m = (r.left(), r.top(), r.right(), r.bottom())
    r.assign(0.0, 0.0, 1.0, 1.0)
    h.get_bounding_box()
    r = g.get_bounding_box()
    check(close((r.left(), r.top(), r.right(), r.bottom()), m), "get_bounding_box again")
    check(no_effects(), "no input or output")


def polygons_contain(x: Real, y: Real, p: Real, q: Real):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0)])
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    r = g.contains(v)
    s = g.contains(v, False)
    g.contains(w)
    check(g.contains(v) == r, "contains again")
    check(g.contains(v, False) == s, "contains without the border again")


def polygons_clip(k: Real):
    ps = [Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(2.0, 4.0)]
    r = Polygon2D.get_line_clipped_polygon(YLessEqual(k), ps, Line2D(0.0, 1.0, -k))
    n = len(r)
    r.append(Vector2D(9.0, 9.0))
    Polygon2D.get_line_clipped_polygon(YMoreEqual(1.0), ps, Line2D(0.0, 1.0, -1.0))
    check(len(Polygon2D.get_line_clipped_polygon(YLessEqual(k), ps, Line2D(0.0, 1.0, -k))) == n, "clipping again")


# ------------------------------------------------------------------ matrices
def matrices(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, x: Real, y: Real):
    k = Matrix2D(a, b, c, d, e, f)
    j = Matrix2D(f, e, d, c, b, a)
    v = Vector2D(x, y)
    _again(lambda: k.transform(v), lambda: j.transform(v), "transform")
    _again(lambda: k * v, lambda: j * v, "k * v")
    _num_again(lambda: k.det(), lambda: j.det(), "det")
    m = k * j
    w = (m.m11(), m.m12(), m.m21(), m.m22(), m.dxtf(), m.dytf())
    m.reset()
    j * j
    m = k * j
    check(close((m.m11(), m.m12(), m.m21(), m.m22(), m.dxtf(), m.dytf()), w), "a product again")
    check(no_effects(), "no input or output")


def matrices_made(x: Real, y: Real, d: DegOpen):
    for k in range(3):
        def make():
            if k == 0:
                return Matrix2D.make_translation(x, y)
            if k == 1:
                return Matrix2D.make_scaling(x, y)
            return Matrix2D.make_rotation(AngleDeg(d))
        m = make()
        w = (m.m11(), m.m12(), m.m21(), m.m22(), m.dxtf(), m.dytf())
        m.scale(2.0, 3.0)
        m.translate(1.0, 1.0)
        n = make()
        check(close((n.m11(), n.m12(), n.m21(), n.m22(), n.dxtf(), n.dytf()), w), "a made matrix again")


# ------------------------------------------------------------------- soccer
def soccer(x: Real, y: Real, n: Int, k: Frac, s: Real, t: Real, j: Int, l: Frac):
    assume(n >= 0 and k > 0.1 and k < 0.9)
    assume(j >= 0 and l > 0.1 and l < 0.9)
    v = Vector2D(x, y)
    w = Vector2D(s, t)
    _again(lambda: soccer_math.inertia_n_step_travel(v, n, k), lambda: soccer_math.inertia_n_step_travel(w, j, l),
           "inertia_n_step_travel")
    _again(lambda: soccer_math.inertia_n_step_point(w, v, n, k), lambda: soccer_math.inertia_n_step_point(v, w, j, l),
           "inertia_n_step_point")
    _again(lambda: soccer_math.inertia_final_point(w, v, k), lambda: soccer_math.inertia_final_point(v, w, l),
           "inertia_final_point")
    _again(lambda: soccer_math.inertia_final_travel(v, k), lambda: soccer_math.inertia_final_travel(w, l),
           "inertia_final_travel")
    _num_again(lambda: soccer_math.inertia_n_step_distance(s, n, k), lambda: soccer_math.inertia_n_step_distance(t, j, l),
               "inertia_n_step_distance")
    _num_again(lambda: soccer_math.inertia_final_distance(s, k), lambda: soccer_math.inertia_final_distance(t, l),
               "inertia_final_distance")
    check(no_effects(), "no input or output")


def soccer_rates(a: Real, b: Real, c: Pos, d: Real, p: Real, q: Real, r: Pos, s: Real):
    sm = soccer_math
    _num_again(lambda: sm.kick_rate(a, d, b, 0.085, 0.3, c), lambda: sm.kick_rate(p, s, q, 0.1, 0.2, r), "kick_rate")
    _num_again(lambda: sm.dir_rate(a, b, d), lambda: sm.dir_rate(p, q, s), "dir_rate")
    _num_again(lambda: sm.effective_turn(a, c, 5.0), lambda: sm.effective_turn(p, r, 4.0), "effective_turn")
    _num_again(lambda: sm.final_speed(a, b, d, 0.4), lambda: sm.final_speed(p, q, s, 0.5), "final_speed")
    _bool_again(lambda: sm.can_over_speed_max(a, b, d, 0.4, c), lambda: sm.can_over_speed_max(p, q, s, 0.5, r),
                "can_over_speed_max")
    check(no_effects(), "no input or output")


def soccer_numbers(a: Real, b: Real, c: Real, p: Real, q: Real, r: Real):
    sm = soccer_math
    _num_again(lambda: sm.bound(a, b, c), lambda: sm.bound(p, q, r), "bound")
    _num_again(lambda: sm.min_max(a, b, c), lambda: sm.min_max(p, q, r), "min_max")
    check(no_effects(), "no input or output")


def soccer_rounding(a: Real, c: Pos, p: Real, r: Pos):
    sm = soccer_math
    _num_again(lambda: sm.r_int(a), lambda: sm.r_int(p), "r_int")
    _num_again(lambda: sm.quantize(a, 0.1), lambda: sm.quantize(p, 0.5), "quantize")
    _num_again(lambda: sm.unquantize_min(a, 0.1), lambda: sm.unquantize_min(p, 0.5), "unquantize_min")
    _num_again(lambda: sm.unquantize_max(a, 0.1), lambda: sm.unquantize_max(p, 0.5), "unquantize_max")
    check(no_effects(), "no input or output")


def soccer_steps(a: Real, c: Pos, p: Real, r: Pos):
    assume(c > 0.01 and r > 0.01)
    _num_again(lambda: soccer_math.quantize(a, c), lambda: soccer_math.quantize(p, r), "quantize with any step")


def soccer_series(a: Pos, b: NonNeg, k: Frac, p: Pos, q: NonNeg, l: Frac):
    assume(a > 0.1 and p > 0.1 and k > 0.1 and k < 0.9 and l > 0.1 and l < 0.9)
    sm = soccer_math
    _num_again(lambda: sm.calc_length_geom_series(a, b, k), lambda: sm.calc_length_geom_series(p, q, l),
               "calc_length_geom_series")
    _num_again(lambda: sm.calc_first_term_geom_series(b, k, 3), lambda: sm.calc_first_term_geom_series(q, l, 2),
               "calc_first_term_geom_series")


def soccer_ranges(x: Real):
    assume(x > 0.0 and x < 3.0)
    a = [i for i in soccer_math.f_range(x)]
    b = [i for i in soccer_math.f_range(2.0)]
    c = [i for i in soccer_math.f_range(x)]
    check(len(a) == len(c), "a range again")
    check(len(b) == 2, "another range")
    check(close(a[0], c[0]), "the first element again")


def soccer_wind(s: Real, f: Real, d: DegOpen, e: DegOpen, z: Real):
    _again(lambda: soccer_math.wind_effect(s, 2.0, f, d, 3.0, 0.5, None),
           lambda: soccer_math.wind_effect(z, 1.0, s, e, 2.0, 0.1, None), "wind_effect")
    check(no_effects(), "no input or output")


# -------------------------------------------------------------------- hulls
def hulls(x: Real, y: Real):
    assume(y > 0.1)
    h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y)])
    h.compute()
    n = len(h.vertices())
    h.compute()
    check(len(h.vertices()) == n, "computing a hull twice")
    g = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y)])
    check(len(g.vertices()) == 0, "a new hull has no vertices")
    g.compute()
    check(len(g.vertices()) == n, "the hull of the same points again")


def hull_methods(x: Real, y: Real):
    assume(y > 0.1)
    for m in (MethodType.WRAPPING_METHOD, MethodType.GRAHAN_SCAN, MethodType.DIRECT_METHOD):
        h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(x, y)])
        h.compute(m)
        n = len(h.vertices())
        k = len(h.edges())
        h.compute(m)
        check(len(h.vertices()) == n, "computing a hull twice by one method")
        check(len(h.edges()) == k, "edges of a hull computed twice")
    check(no_effects(), "no input or output")


# ------------------------------------------- after a call with any other arguments
def angle_functions(d: Real, e: Real):
    _num_again(lambda: AngleDeg.cos_deg(d), lambda: AngleDeg.cos_deg(e), "cos_deg")
    _num_again(lambda: AngleDeg.atan_deg(d), lambda: AngleDeg.atan_deg(e), "atan_deg")
    _num_again(lambda: AngleDeg.acos_deg(d), lambda: AngleDeg.acos_deg(e), "acos_deg")
    _num_again(lambda: AngleDeg.asin_deg(d), lambda: AngleDeg.asin_deg(e), "asin_deg")
    _num_again(lambda: AngleDeg.rad2deg(d), lambda: AngleDeg.rad2deg(e), "rad2deg")
    _num_again(lambda: AngleDeg.deg2rad(d), lambda: AngleDeg.deg2rad(e), "deg2rad")
    _num_again(lambda: AngleDeg.normalize_angle(d), lambda: AngleDeg.normalize_angle(e), "normalize_angle")
    _num_again(lambda: AngleDeg(d).degree(), lambda: AngleDeg(e).degree(), "degree")
    _num_again(lambda: AngleDeg(d).cos(), lambda: AngleDeg(e).cos(), "cos")


def directions(x: Real, y: Real, p: Real, q: Real):
    _num_again(lambda: AngleDeg.atan2_deg(x, y), lambda: AngleDeg.atan2_deg(p, q), "atan2_deg")
    _num_again(lambda: Vector2D(x, y).th().degree(), lambda: Vector2D(p, q).th().degree(), "direction")


def angle_order(d: DegOpen, e: DegOpen, f: DegOpen, g: DegOpen):
    a = AngleDeg(d)
    b = AngleDeg(e)
    _bool_again(lambda: a.is_left_of(b), lambda: AngleDeg(f).is_left_of(AngleDeg(g)), "is_left_of")
    _bool_again(lambda: a.is_right_equal_of(e), lambda: AngleDeg(f).is_right_equal_of(g), "is_right_equal_of")
    _bool_again(lambda: a == b, lambda: AngleDeg(f) == AngleDeg(g), "==")


def angle_bisectors(d: DegOpen, e: DegOpen, f: DegOpen, g: DegOpen):
    _angle_again(lambda: AngleDeg.bisect(d, e), lambda: AngleDeg.bisect(f, g), "bisect")


def line_forms(x: Real, y: Real, d: DegOpen, p: Real, q: Real, e: DegOpen):
    _line_again(lambda: Line2D(Vector2D(x, y), AngleDeg(d)), lambda: Line2D(Vector2D(p, q), AngleDeg(e)), "a directed line")
    _line_again(lambda: Ray2D(Vector2D(x, y), d).line(), lambda: Ray2D(Vector2D(p, q), e).line(), "the line of a ray")
    _line_again(lambda: Line2D(x, y, d), lambda: Line2D(p, q, e), "a line by coefficients")


def line_values(a: Real, b: Real, c: Real, z: Real, p: Real, q: Real, r: Real, u: Real):
    _num_again(lambda: Line2D(a, b, c).get_x(z), lambda: Line2D(p, q, r).get_x(u), "get_x")
    _num_again(lambda: Line2D(a, b, c).get_y(z), lambda: Line2D(p, q, r).get_y(u), "get_y")


def line_points(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real, c: Real, d: Real):
    _line_again(lambda: Line2D(Vector2D(x, y), Vector2D(p, q)), lambda: Line2D(Vector2D(a, b), Vector2D(c, d)),
                "a line through two points")
    _line_again(lambda: Segment2D(x, y, p, q).line(), lambda: Segment2D(a, b, c, d).line(), "the line of a segment")
    _num_again(lambda: Segment2D(x, y, p, q).length(), lambda: Segment2D(a, b, c, d).length(), "length")
    _num_again(lambda: Vector2D(x, y).dist(Vector2D(p, q)), lambda: Vector2D(a, b).dist(Vector2D(c, d)), "dist")
    _num_again(lambda: Vector2D.inner_product_static(Vector2D(x, y), Vector2D(p, q)),
               lambda: Vector2D.inner_product_static(Vector2D(a, b), Vector2D(c, d)), "inner_product_static")


def line_crossing(a: Real, b: Real, c: Real, d: Real, p: Real, q: Real, r: Real, s: Real):
    m = Line2D(1.0, 2.0, d)
    k = Line2D(1.0, 2.0, s)
    _again(lambda: Line2D.line_intersection(Line2D(a, b, c), m), lambda: Line2D.line_intersection(Line2D(p, q, r), k),
           "line_intersection")
    _bool_again(lambda: Line2D(a, b, c).is_parallel(m), lambda: Line2D(p, q, r).is_parallel(k), "is_parallel")


def line_distance(a: Real, c: Real, x: Real, y: Real, p: Real, q: Real, r: Real, s: Real):
    _num_again(lambda: Line2D(a, 1.0, c).dist(Vector2D(x, y)), lambda: Line2D(p, 1.0, q).dist(Vector2D(r, s)), "dist")
    _num_again(lambda: Line2D(a, 1.0, c).dist2(Vector2D(x, y)), lambda: Line2D(p, 1.0, q).dist2(Vector2D(r, s)), "dist2")
    _again(lambda: Line2D(a, 1.0, c).projection(Vector2D(x, y)), lambda: Line2D(p, 1.0, q).projection(Vector2D(r, s)),
           "projection")


def segment_points(x: Real, y: Real, a: Real, b: Real, p: Real, q: Real, c: Real, d: Real):
    def seg(u, v):
        return Segment2D(Vector2D(0.0, 0.0), Vector2D(u, v))
    _num_again(lambda: seg(x, y).dist(Vector2D(a, b)), lambda: seg(p, q).dist(Vector2D(c, d)), "dist")
    _num_again(lambda: seg(x, y).farthest_dist(Vector2D(a, b)), lambda: seg(p, q).farthest_dist(Vector2D(c, d)),
               "farthest_dist")
    _bool_again(lambda: seg(x, y).contains(Vector2D(a, b)), lambda: seg(p, q).contains(Vector2D(c, d)), "contains")
    _bool_again(lambda: seg(x, y).on_segment(Vector2D(a, b)), lambda: seg(p, q).on_segment(Vector2D(c, d)), "on_segment")


def segment_crossing(x: Real, y: Real, p: Real, q: Real):
    t = Segment2D(Vector2D(0.0, 0.0), Vector2D(4.0, 2.0))
    o = Vector2D(1.0, 3.0)
    _bool_again(lambda: t.exist_intersection(Segment2D(o, Vector2D(x, y))),
                lambda: t.exist_intersection(Segment2D(o, Vector2D(p, q))), "exist_intersection")
    _again(lambda: t.intersection(Segment2D(o, Vector2D(x, y)), True),
           lambda: t.intersection(Segment2D(o, Vector2D(p, q)), True), "intersection")


def triangle_functions(x: Real, y: Real, a: Real, b: Real, p: Real, q: Real, c: Real, d: Real):
    T = Triangle2D
    o = Vector2D(0.0, 0.0)
    i = Vector2D(1.0, 1.0)
    _num_again(lambda: T.double_signed_area_st(o, Vector2D(x, y), Vector2D(a, b)),
               lambda: T.double_signed_area_st(i, Vector2D(p, q), Vector2D(c, d)), "double_signed_area_st")
    _num_again(lambda: T.signed_area_st(o, Vector2D(x, y), Vector2D(a, b)),
               lambda: T.signed_area_st(i, Vector2D(p, q), Vector2D(c, d)), "signed_area_st")
    _bool_again(lambda: T.tri_ccw(o, Vector2D(x, y), Vector2D(a, b)),
                lambda: T.tri_ccw(i, Vector2D(p, q), Vector2D(c, d)), "tri_ccw")
    _again(lambda: T.tri_centroid(o, Vector2D(x, y), Vector2D(a, b)),
           lambda: T.tri_centroid(i, Vector2D(p, q), Vector2D(c, d)), "tri_centroid")


def triangle_contains(x: Real, y: Real, p: Real, q: Real):
    T = Triangle2D
    o, i, j = Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0)
    _bool_again(lambda: T.tri_contains(o, i, j, Vector2D(x, y)), lambda: T.tri_contains(o, i, j, Vector2D(p, q)),
                "tri_contains")
    _bool_again(lambda: T.tri_contains(o, i, Vector2D(x, y), j), lambda: T.tri_contains(o, i, Vector2D(p, q), j),
                "tri_contains with another corner")


def triangle_centres(x: Real, y: Real, p: Real, q: Real):
    assume(y > 0.5 and q > 0.5)
    T = Triangle2D
    o, i = Vector2D(0.0, 0.0), Vector2D(4.0, 0.0)
    _again(lambda: T.tri_circumcenter(o, i, Vector2D(x, y)), lambda: T.tri_circumcenter(o, i, Vector2D(p, q)),
           "tri_circumcenter")
    _again(lambda: T.tri_orthocenter(o, i, Vector2D(x, y)), lambda: T.tri_orthocenter(o, i, Vector2D(p, q)),
           "tri_orthocenter")
    _num_again(lambda: Circle2D.circum_circle(o, i, Vector2D(x, y)).radius(),
               lambda: Circle2D.circum_circle(o, i, Vector2D(p, q)).radius(), "circum_circle")


def _points_again(call, other, what):
    """a call returning a list of points"""
    o = other()
    o.append(Vector2D(7.0, 7.0))
    f = fresh(call)
    r = call()
    check(len(r) == len(f), what + " after other calls: count")
    if len(r) == len(f):
        for i in range(len(f)):
            check(close((r[i].x(), r[i].y()), (f[i].x(), f[i].y())), what + " after other calls")
            r[i].assign(5.0, 5.0)
    r.append(Vector2D(8.0, 8.0))
    s = call()
    check(len(s) == len(f), what + " again: count")
    if len(s) == len(f):
        for i in range(len(f)):
            check(close((s[i].x(), s[i].y()), (f[i].x(), f[i].y())), what + " again")


def rect_lines(c: Real, d: Real, l: Pos, m: Pos):
    _points_again(lambda: Rect2D(0.0, 0.0, l, 3.0).intersection(Line2D(0.0, 1.0, c)),
                  lambda: Rect2D(0.0, 0.0, m, 3.0).intersection(Line2D(0.0, 1.0, d)), "rectangle and line")


def circle_lines(c: Real, d: Real, r: Pos, s: Pos):
    o = Vector2D(0.0, 0.0)
    _points_again(lambda: Circle2D(o, r).intersection(Line2D(1.0, 0.0, c)),
                  lambda: Circle2D(o, s).intersection(Line2D(1.0, 0.0, d)), "circle and line")


def circle_pairs(c: Real, d: Real, s: Pos, t: Pos):
    i = Circle2D(Vector2D(0.0, 0.0), 2.0)
    _points_again(lambda: i.intersection(Circle2D(Vector2D(c, 0.0), s)),
                  lambda: i.intersection(Circle2D(Vector2D(d, 0.0), t)), "two circles")


def quadratics(b: Real, c: Real, d: Real, e: Real):
    from pyrusgeom.circle_2d import quadratic_f
    quadratic_f(1.0, d, e)
    f = fresh(lambda: quadratic_f(1.0, b, c))
    r = quadratic_f(1.0, b, c)
    check(len(r) == len(f), "the number of roots after other calls")
    if len(f) == 2 and len(r) == 2:
        check(close((r[0], r[1]), (f[0], f[1])), "the roots after other calls")
    r.append(3.0)
    s = quadratic_f(1.0, b, c)
    check(len(s) == len(f), "the number of roots again")


def rect_pairs(x: Real, y: Real, l: Pos, p: Real, q: Real, m: Pos):
    r = Rect2D(0.0, 0.0, 4.0, 3.0)

    def four(u):
        return (u.left(), u.top(), u.right(), u.bottom())
    s = Rect2D(x, y, l, 2.0)
    t = Rect2D(p, q, m, 2.0)
    r.united(t)
    f = four(fresh(lambda: r.united(s)))
    check(close(four(r.united(s)), f), "united after other calls")
    r.united(s).assign(9.0, 9.0, 1.0, 1.0)
    check(close(four(r.united(s)), f), "united again")


def rect_common(x: Real, l: Pos, p: Real, m: Pos):
    r = Rect2D(0.0, 0.0, 4.0, 3.0)

    def four(u):
        return (u.left(), u.top(), u.right(), u.bottom())
    s = Rect2D(x, 1.0, l, 5.0)
    t = Rect2D(p, 1.0, m, 5.0)
    r.intersected(t).assign(3.0, 3.0, 1.0, 1.0)
    f = four(fresh(lambda: r.intersected(s)))
    check(close(four(r.intersected(s)), f), "intersected after other calls")


def rect_made(x: Real, y: Real, l: Real, w: Real, p: Real, q: Real, m: Real, v: Real):
    def four(u):
        return (u.left(), u.top(), u.right(), u.bottom())
    Rect2D(p, q, m, v)
    f = four(fresh(lambda: Rect2D(x, y, l, w)))
    check(close(four(Rect2D(x, y, l, w)), f), "a rectangle after others")
    Rect2D.from_center(p, q, m, v)
    f = four(fresh(lambda: Rect2D.from_center(x, y, l, w)))
    check(close(four(Rect2D.from_center(x, y, l, w)), f), "from_center after others")
    f = four(fresh(lambda: Rect2D(Vector2D(x, y), Vector2D(l, w))))
    check(close(four(Rect2D(Vector2D(x, y), Vector2D(l, w))), f), "a rectangle by corners after others")


def sector_measures(r: Pos, d: DegOpen, e: DegOpen, s: Pos, f: DegOpen, g: DegOpen):
    o = Vector2D(0.0, 0.0)
    _num_again(lambda: Sector2D(o, 0.0, r, d, e).area(), lambda: Sector2D(o, 0.0, s, f, g).area(), "sector area")
    _num_again(lambda: Sector2D(o, 0.0, r, d, e).get_circumference_max(),
               lambda: Sector2D(o, 0.0, s, f, g).get_circumference_max(), "sector arc")


def polygon_measures(x: Real, y: Real, p: Real, q: Real):
    def tri(u, v):
        return Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(u, v)])
    _num_again(lambda: tri(x, y).double_signed_area(), lambda: tri(p, q).double_signed_area(), "double_signed_area")
    _bool_again(lambda: tri(x, y).is_counter_clockwise(), lambda: tri(p, q).is_counter_clockwise(),
                "is_counter_clockwise")
    _num_again(lambda: tri(x, y).get_bounding_box().right(), lambda: tri(p, q).get_bounding_box().right(),
               "bounding box")
    _again(lambda: tri(x, y).bounding_box_center(), lambda: tri(p, q).bounding_box_center(), "bounding_box_center")


def polygon_places(x: Real, y: Real, p: Real, q: Real):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(0.0, 4.0)])
    _bool_again(lambda: g.contains(Vector2D(x, y)), lambda: g.contains(Vector2D(p, q)), "contains")
    _bool_again(lambda: g.contains(Vector2D(x, y), False), lambda: g.contains(Vector2D(x, y), True),
                "contains without the border")


def matrix_maps(a: Real, b: Real, c: Real, d: Real, p: Real, q: Real, r: Real, s: Real):
    def mat(u, v):
        return Matrix2D(u, 1.0, 2.0, v, 3.0, 4.0)
    _num_again(lambda: mat(a, b).det(), lambda: mat(p, q).det(), "det")
    _again(lambda: mat(a, b).transform(c, d), lambda: mat(p, q).transform(r, s), "transform")
    _bool_again(lambda: mat(a, b).invertible(), lambda: mat(p, q).invertible(), "invertible")
    _num_again(lambda: (mat(a, b) * mat(c, d)).m11(), lambda: (mat(p, q) * mat(r, s)).m11(), "product")


def matrix_rotations(d: DegOpen, e: DegOpen, x: Real, y: Real):
    _num_again(lambda: Matrix2D.make_rotation(AngleDeg(d)).m21(), lambda: Matrix2D.make_rotation(AngleDeg(e)).m21(),
               "make_rotation")
    _num_again(lambda: Matrix2D.make_scaling(d, x).m22(), lambda: Matrix2D.make_scaling(e, y).m22(), "make_scaling")
    _num_again(lambda: Matrix2D.make_translation(d, x).dytf(), lambda: Matrix2D.make_translation(e, y).dytf(),
               "make_translation")


def size_measures(l: Real, w: Real, m: Real, v: Real):
    _num_again(lambda: Size2D(l, w).diagonal(), lambda: Size2D(m, v).diagonal(), "diagonal")
    _bool_again(lambda: Size2D(l, w).is_valid(), lambda: Size2D(m, v).is_valid(), "size validity")


def hull_of(x: Real, y: Real, p: Real, q: Real):
    assume(y > 0.5 and q > 0.5)

    def hull(u, v):
        h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 0.0), Vector2D(u, v)])
        h.compute()
        return h.vertices()
    _points_again(lambda: hull(x, y), lambda: hull(p, q), "hull vertices")


# -------------------------------------------- the same call with slightly different arguments before
def _flat(r):
    if isinstance(r, (bool, int, float)):
        return [r]
    if isinstance(r, (list, tuple)):
        out = [len(r)]
        for v in r:
            out += _flat(v)
        return out
    if isinstance(r, Vector2D):
        return [r.x(), r.y(), r.is_valid()]
    if isinstance(r, AngleDeg):
        return [r.degree()]
    if isinstance(r, Line2D):
        return [r.a(), r.b(), r.c()]
    if isinstance(r, Segment2D):
        return _flat((r.origin(), r.terminal()))
    if isinstance(r, Ray2D):
        return _flat((r.origin(), r.dir()))
    if isinstance(r, Size2D):
        return [r.length(), r.width()]
    if isinstance(r, Rect2D):
        return [r.left(), r.top(), r.right(), r.bottom()]
    if isinstance(r, Circle2D):
        return _flat((r.center(), r.radius()))
    if isinstance(r, Polygon2D):
        return _flat(r.vertices())
    if isinstance(r, Matrix2D):
        return [r.m11(), r.m12(), r.m21(), r.m22(), r.dxtf(), r.dytf()]
    return []


def _near(calls, base, what):
    """each of the calls, after the same call with one number changed a little or a lot"""
    for call in calls:
        call(*base)
        for i in range(len(base)):
            for d in (0.0004, -0.00004, 1.0, -2.0 * base[i], 360.0):
                args = base[:i] + (base[i] + d,) + base[i + 1:]
                f = _flat(fresh(lambda: call(*args)))
                r = _flat(call(*args))
                check(len(r) == len(f), what + " keep nothing from a similar call (number of results)")
                if len(r) == len(f):
                    for u, v in zip(r, f):
                        check(close(u, v), what + " keep nothing from a similar call")


def near_vector():
    _near((lambda x, y, p, q: Vector2D(x, y).r(), lambda x, y, p, q: Vector2D(x, y).r2(),
           lambda x, y, p, q: Vector2D(x, y).dist(Vector2D(p, q)), lambda x, y, p, q: Vector2D(x, y).dist2(Vector2D(p, q)),
           lambda x, y, p, q: Vector2D(x, y).inner_product(Vector2D(p, q)),
           lambda x, y, p, q: Vector2D(x, y).outer_product(Vector2D(p, q)),
           lambda x, y, p, q: Vector2D(x, y) + Vector2D(p, q), lambda x, y, p, q: Vector2D(x, y) - Vector2D(p, q),
           lambda x, y, p, q: Vector2D(x, y) * p, lambda x, y, p, q: Vector2D(x, y) / p,
           lambda x, y, p, q: Vector2D(x, y).normalize_vector(), lambda x, y, p, q: Vector2D(x, y).set_length_vector(p),
           lambda x, y, p, q: Vector2D(x, y).equals_weakly(Vector2D(x, y + q)), lambda x, y, p, q: Vector2D(x, y).abs()),
          (3.0, 5.0, 2.0, -7.0), "vector results")


def near_direction():
    _near((lambda x, y, d: Vector2D(x, y).th(), lambda x, y, d: Vector2D(x, y).rotated_vector(d),
           lambda x, y, d: Vector2D.from_polar(x, d), lambda x, y, d: Vector2D.polar2vector(x, AngleDeg(d)),
           lambda x, y, d: Vector2D(r=x, a=d)),
          (3.0, 5.0, 20.0), "directions")


def near_angle():
    _near((lambda d, e, k: AngleDeg(d), lambda d, e, k: AngleDeg(d) + AngleDeg(e), lambda d, e, k: AngleDeg(d) - AngleDeg(e),
           lambda d, e, k: AngleDeg(d) * k, lambda d, e, k: AngleDeg(d).reverse_angle(), lambda d, e, k: AngleDeg(d).sin(),
           lambda d, e, k: AngleDeg(d).cos(), lambda d, e, k: AngleDeg(d).tan(), lambda d, e, k: AngleDeg(d).radian(),
           lambda d, e, k: AngleDeg(d).is_left_of(e), lambda d, e, k: AngleDeg(d).is_within(e, k),
           lambda d, e, k: AngleDeg.bisect(AngleDeg(d), AngleDeg(e)), lambda d, e, k: AngleDeg.normalize_angle(d + 180.0),
           lambda d, e, k: AngleDeg(d) == AngleDeg(e), lambda d, e, k: AngleDeg.sin_deg(d), lambda d, e, k: AngleDeg.cos_deg(d),
           lambda d, e, k: AngleDeg.tan_deg(d), lambda d, e, k: AngleDeg.atan_deg(d), lambda d, e, k: AngleDeg.atan2_deg(d, e)),
          (20.0, 50.0, 3.0), "angle results")


def near_inverse():
    _near((lambda k: AngleDeg.acos_deg(k), lambda k: AngleDeg.asin_deg(k), lambda k: AngleDeg.deg2rad(k),
           lambda k: AngleDeg.rad2deg(k)), (0.25,), "inverse functions")


def near_line():
    _near((lambda a, b, c, x, y: Line2D(a, b, c).dist(Vector2D(x, y)), lambda a, b, c, x, y: Line2D(a, b, c).dist2(Vector2D(x, y)),
           lambda a, b, c, x, y: Line2D(a, b, c).get_x(y), lambda a, b, c, x, y: Line2D(a, b, c).get_y(x),
           lambda a, b, c, x, y: Line2D(a, b, c).perpendicular(Vector2D(x, y)),
           lambda a, b, c, x, y: Line2D(a, b, c).projection(Vector2D(x, y)),
           lambda a, b, c, x, y: Line2D(a, b, c).intersection(Line2D(x, y, 1.0)),
           lambda a, b, c, x, y: Line2D(a, b, c).is_parallel(Line2D(x, y, 1.0)),
           lambda a, b, c, x, y: Line2D(Vector2D(a, b), Vector2D(x, y)), lambda a, b, c, x, y: Line2D(Vector2D(a, b), AngleDeg(c)),
           lambda a, b, c, x, y: Line2D.perpendicular_bisector(Vector2D(a, b), Vector2D(x, y)),
           lambda a, b, c, x, y: Line2D.angle_bisector(Vector2D(a, b), AngleDeg(x), AngleDeg(y))),
          (3.0, 5.0, 2.0, 4.0, -1.0), "line results")


def near_ray():
    _near((lambda x, y, d, p, q: Ray2D(Vector2D(x, y), d), lambda x, y, d, p, q: Ray2D(Vector2D(x, y), Vector2D(p, q)),
           lambda x, y, d, p, q: Ray2D(Vector2D(x, y), d).line(),
           lambda x, y, d, p, q: Ray2D(Vector2D(x, y), d).in_right_dir(Vector2D(p, q)),
           lambda x, y, d, p, q: Ray2D(Vector2D(x, y), d).intersection(Line2D(1.0, p, q)),
           lambda x, y, d, p, q: Ray2D(Vector2D(x, y), d).intersection(Ray2D(Vector2D(p, q), 100.0))),
          (3.0, 5.0, 20.0, 9.0, 6.0), "ray results")


def near_segment():
    _near((lambda x, y, p, q, a, b: Segment2D(Vector2D(x, y), Vector2D(p, q)).length(),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q).direction(),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q).reversed_segment(),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "segment results")


def near_segment_dist():
    _near((lambda x, y, p, q, a, b: Segment2D(x, y, p, q).dist(Vector2D(a, b)),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q).farthest_dist(Vector2D(a, b)),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "distances from a segment")


def near_segments_dist():
    _near((lambda x, y, p, q, a, b: Segment2D(x, y, p, q).dist(Segment2D(a, b, a + 1.0, b)),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "distances of segments")


def near_segment_points():
    _near((lambda x, y, p, q, a, b: Segment2D(x, y, p, q).nearest_point(Vector2D(a, b)),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q).projection(Vector2D(a, b)),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "points of a segment")


def near_segment_on():
    _near((lambda x, y, p, q, a, b: Segment2D(x, y, p, q).on_segment(Vector2D(a, b)),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q).contains(Vector2D(a, b)),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "points on a segment")


def near_segments():
    _near((lambda x, y, p, q, a, b: Segment2D(x, y, p, q).intersection(Segment2D(a, b, a, b + 9.0)),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q).intersection(Line2D(Vector2D(a, b), Vector2D(a, b + 9.0))),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "segment crossings")


def near_segments_cross():
    _near((lambda x, y, p, q, a, b: Segment2D(x, y, p, q).exist_intersection(Segment2D(a, b, a, b + 9.0)),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q).intersects_except_endpoint(Segment2D(a, b, a, b + 9.0)),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "crossing of segments")


def near_segment_lines():
    _near((lambda x, y, p, q, a, b: Segment2D(x, y, p, q).line(),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q).perpendicular_bisector(),
           lambda x, y, p, q, a, b: Segment2D(x, y, p, q) == Segment2D(x, y, a, b),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "lines of segments")


def near_triangle():
    t = lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    _near((lambda *g: t(*g).area(),
           lambda *g: t(*g).signed_area(),
           lambda *g: t(*g).double_signed_area(),
           lambda *g: t(*g).ccw(),
           lambda *g: t(*g).is_valid(),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "triangle results")


def near_triangle_points():
    t = lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    _near((lambda *g: t(*g).contains(Vector2D(5.0, 4.0)),
           lambda *g: t(*g).centroid(),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "triangle points")


def near_triangle_circum():
    t = lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    _near((lambda *g: t(*g).circumcenter(),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "circumcenters")


def near_triangle_ortho():
    t = lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    _near((lambda *g: t(*g).orthocenter(),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "orthocenters")


def near_triangle_in():
    t = lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    _near((lambda *g: t(*g).incenter(),),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "incenters")


def near_triangle_cut():
    t = lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    _near((lambda *g: t(*g).intersection(Line2D(Vector2D(0.0, 4.0), Vector2D(9.0, 4.5)))[0],),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "triangle crossings")


def near_triangle_cut_segment():
    t = lambda x, y, p, q, a, b: Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    _near((lambda *g: t(*g).intersection(Segment2D(0.0, 4.0, 9.0, 4.5))[0],),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "triangle crossings")


def near_rect():
    r = lambda x, y, l, w: Rect2D(x, y, l, w)
    _near((lambda *g: r(*g), lambda *g: r(*g).area(), lambda *g: r(*g).center(), lambda *g: r(*g).size(), lambda *g: r(*g).left_edge(),
           lambda *g: r(*g).contains(Vector2D(8.0, 6.0)), lambda *g: r(*g).contains_almost(Vector2D(8.0, 6.0), 0.0005),
           lambda *g: r(*g).intersected(Rect2D(4.0, 4.0, 3.0, 3.0)), lambda *g: r(*g).united(Rect2D(4.0, 4.0, 3.0, 3.0)),
           lambda *g: Rect2D.from_center(*g), lambda *g: r(*g).bottom_right(), lambda *g: r(*g).is_valid(),
           lambda *g: Size2D(g[0], g[1]).diagonal()),
          (3.0, 5.0, 5.0, 2.0), "rectangle results")


def near_rect_cut():
    r = lambda x, y, l, w: Rect2D(x, y, l, w)
    _near((lambda *g: r(*g).intersection(Line2D(Vector2D(0.0, 4.0), Vector2D(9.0, 7.0))),
           lambda *g: r(*g).intersection(Segment2D(0.0, 4.0, 9.0, 7.0))),
          (3.0, 5.0, 5.0, 2.0), "rectangle crossings")


def near_circle():
    c = lambda x, y, r: Circle2D(Vector2D(x, y), r)
    _near((lambda *g: c(*g), lambda *g: c(*g).area(), lambda *g: c(*g).contains(Vector2D(8.0, 5.0)),
           lambda *g: c(*g).intersection(Line2D(1.0, 0.25, -6.0)), lambda *g: c(*g).intersection(Segment2D(0.0, 4.0, 9.0, 7.0)),
           lambda *g: c(*g).intersection(Circle2D(Vector2D(5.0, 4.0), 4.0))),
          (3.0, 5.0, 5.0), "circle results")


def near_circum():
    _near((lambda x, y, p, q, a, b: Circle2D.circum_circle(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b)),
           lambda x, y, p, q, a, b: Circle2D.circum_circle_contains(Vector2D(5.0, 4.0), Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))),
          (3.0, 5.0, 8.0, 6.0, 5.0, 2.0), "circumscribed circles")


def near_sector():
    s = lambda x, y, r, k, d, e: Sector2D(Vector2D(x, y), r, k, d, e)
    _near((lambda *g: s(*g).area(), lambda *g: s(*g).get_circumference_min(), lambda *g: s(*g).get_circumference_max(),
           lambda *g: s(*g).radius_max(), lambda *g: s(*g).angle_left_start(), lambda *g: s(*g).center()),
          (3.0, 5.0, 2.0, 4.0, 20.0, 70.0), "sector results")


def near_sector_point():
    s = lambda x, y, r, k, d, e: Sector2D(Vector2D(x, y), r, k, d, e)
    _near((lambda *g: s(*g).contains(Vector2D(5.0, 7.0)), lambda *g: s(*g).contains(Vector2D(7.0, 5.0))),
          (3.0, 5.0, 2.0, 4.0, 20.0, 70.0), "sector containment")


def near_polygon():
    g = lambda x, y, p, q: Polygon2D([Vector2D(0.0, 0.0), Vector2D(9.0, 1.0), Vector2D(x, y), Vector2D(p, q)])
    _near((lambda *a: g(*a).area(),
           lambda *a: g(*a).double_signed_area(),
           lambda *a: g(*a).is_clockwise(),),
          (8.0, 7.0, 1.0, 6.0), "polygon results")


def near_polygon_box():
    g = lambda x, y, p, q: Polygon2D([Vector2D(0.0, 0.0), Vector2D(9.0, 1.0), Vector2D(x, y), Vector2D(p, q)])
    _near((lambda *a: g(*a).get_bounding_box(),
           lambda *a: g(*a).bounding_box_center(),
           lambda *a: g(*a).vertices(),),
          (8.0, 7.0, 1.0, 6.0), "polygon boxes")


def near_polygon_contains():
    g = lambda x, y, p, q: Polygon2D([Vector2D(0.0, 0.0), Vector2D(9.0, 1.0), Vector2D(x, y), Vector2D(p, q)])
    _near((lambda *a: g(*a).contains(Vector2D(8.0, 7.0)),),
          (8.0, 7.0, 1.0, 6.0), "polygon containment")


def near_polygon_dist():
    g = lambda x, y, p, q: Polygon2D([Vector2D(0.0, 0.0), Vector2D(9.0, 1.0), Vector2D(x, y), Vector2D(p, q)])
    _near((lambda *a: g(*a).dist(Vector2D(10.0, 9.0)),),
          (8.0, 7.0, 1.0, 6.0), "polygon distances")


def near_polygon_clip():
    g = lambda x, y, p, q: Polygon2D([Vector2D(0.0, 0.0), Vector2D(9.0, 1.0), Vector2D(x, y), Vector2D(p, q)])
    _near((lambda *a: g(*a).get_rectangle_clipped_polygon(Rect2D(-500.0, -500.0, 504.0, 1000.0)),
           lambda *a: Polygon2D.get_line_clipped_polygon(XLessEqual(a[0]), g(*a).vertices(), Line2D(1.0, 0.0, -a[0]))),
          (8.0, 7.0, 1.0, 6.0), "clipped polygons")


def near_matrix():
    k = lambda a, b, c, d, e, f: Matrix2D(a, b, c, d, e, f)
    _near((lambda *g: k(*g), lambda *g: k(*g).det(), lambda *g: k(*g).inverted(), lambda *g: k(*g) * Matrix2D(1.0, 2.0, 3.0, 5.0, 7.0, 8.0),
           lambda *g: k(*g) * Vector2D(2.0, 3.0), lambda *g: k(*g).transform(2.0, 3.0), lambda *g: k(*g) == k(1.0, 2.0, 3.0, 7.0, 9.0, 10.0),
           lambda *g: Matrix2D.make_rotation(AngleDeg(g[0])), lambda *g: Matrix2D.make_translation(g[0], g[1]),
           lambda *g: Matrix2D.make_scaling(g[0], g[1])),
          (1.0, 2.0, 3.0, 7.0, 9.0, 10.0), "matrix results")


def _near_h(x, y, p, q):
    k = ConvexHull([Vector2D(0.0, 0.0), Vector2D(9.0, 1.0), Vector2D(x, y), Vector2D(p, q)])
    k.compute()
    return k


def near_hull():
    _near((lambda *a: _near_h(*a).vertices(),
           lambda *a: _near_h(*a).input_points(),),
          (8.0, 7.0, 1.0, 6.0), "hulls")


def near_hull_edges():
    _near((lambda *a: _near_h(*a).edges(),),
          (8.0, 7.0, 1.0, 6.0), "hulls")


def near_hull_polygon():
    _near((lambda *a: _near_h(*a).to_polygon(),),
          (8.0, 7.0, 1.0, 6.0), "hulls")


def near_soccer():
    s = soccer_math
    _near((lambda a, b, c, d: s.kick_rate(a, b, c, d, 0.3, 0.7), lambda a, b, c, d: s.dir_rate(b, c, d),
           lambda a, b, c, d: s.effective_turn(a, b, c), lambda a, b, c, d: s.final_speed(a, b, c, d),
           lambda a, b, c, d: s.can_over_speed_max(a, b, c, d, 1.0), lambda a, b, c, d: s.inertia_final_distance(a, d),
           lambda a, b, c, d: s.bound(a, b, c), lambda a, b, c, d: s.min_max(a, b, c), lambda a, b, c, d: s.quantize(a, d),
           lambda a, b, c, d: s.unquantize_min(a, d), lambda a, b, c, d: s.unquantize_max(a, d),
           lambda a, b, c, d: s.inertia_final_travel(Vector2D(a, b), d), lambda a, b, c, d: s.r_int(a),
           lambda a, b, c, d: s.inertia_final_point(Vector2D(a, b), Vector2D(c, b), d)),
          (1.25, 20.0, 0.8, 0.6), "soccer formulas")


def near_inertia():
    s = soccer_math
    _near((lambda a, b, d: s.inertia_n_step_travel(Vector2D(a, b), 3, d), lambda a, b, d: s.inertia_n_step_distance(a, 5, d),
           lambda a, b, d: s.inertia_n_step_point(Vector2D(a, b), Vector2D(b, a), 4, d),
           lambda a, b, d: s.calc_first_term_geom_series(a, d, 3)),
          (1.25, 20.0, 0.6), "inertia formulas")


def near_steps():
    s = soccer_math
    for n in (1, 2, 3, 10, 2, 1):
        check(close(s.inertia_n_step_distance(1.5, n, 0.9), fresh(lambda: s.inertia_n_step_distance(1.5, n, 0.9))),
              "the number of steps decides")
        v = s.inertia_n_step_travel(Vector2D(1.0, 2.0), n, 0.9)
        w = fresh(lambda: s.inertia_n_step_travel(Vector2D(1.0, 2.0), n, 0.9))
        check(close((v.x(), v.y()), (w.x(), w.y())), "the number of steps decides (travel)")


# ------------------------------------------------------ no input or output
def quiet_vectors(x: Real, y: Real, p: Real, q: Real, k: Pos):
    v = Vector2D(x, y)
    w = Vector2D(p, q)
    for r in (v + w, v - w, v * k, v / k, v.abs(), v.reverse_vector(), v.normalize_vector(), v.set_length_vector(k), v.copy(), v.get_copy(),
              Vector2D.invalid(), Vector2D(x=x, y=y)):
        r.is_valid()
    v.th()
    v.r()
    v.dist(w)
    v == w
    v.equals_weakly(w)
    v.equals(w)
    hash(v)
    v.add(w)
    v.sub(p, q)
    v.scale(k)
    v += w
    v -= w
    v *= k
    v /= k
    v.set_length(k)
    v.normalize()
    v.set_x_y(p, q)
    v.set_vector(w)
    v.invalidate()
    v.validate()
    check(no_effects(), "vectors do no input or output")


def quiet_angles(d: Real, e: Deg, k: Pos):
    a = AngleDeg(d)
    for r in (a + e, a - e, -a, a.copy(), a.reverse_angle()):
        r.degree()
    a.abs()
    a.radian()
    a.get_normalized()
    a == e
    check(no_effects(), "angles do no input or output")


def quiet_angles_scaled(d: Deg, k: Pos):
    a = AngleDeg(d)
    a * k
    a // k
    a *= k
    a /= k
    check(no_effects(), "scaled angles do no input or output")


def quiet_angles_compared(d: Deg, e: Deg, f: Deg):
    a = AngleDeg(d)
    b = AngleDeg(e)
    a.is_left_of(b)
    a.is_right_of(b)
    a.is_left_equal_of(e)
    a.is_right_equal_of(e)
    AngleDeg.bisect(a, b)
    check(no_effects(), "compared angles do no input or output")


def quiet_angles_within(d: Deg, e: Deg, f: Deg):
    AngleDeg(d).is_within(AngleDeg(e), f)
    check(no_effects(), "angles within angles do no input or output")


def quiet_angles_set(d: Real, e: Deg):
    a = AngleDeg(e)
    a += d
    a -= e
    a.reverse()
    a.set_degree(e)
    a.set_angle(AngleDeg(e))
    AngleDeg.normalize_angle(d)
    AngleDeg.acos_deg(d)
    AngleDeg.asin_deg(d)
    AngleDeg.atan2_deg(d, e)
    check(no_effects(), "changing angles does no input or output")


def quiet_polar(r: Real, d: Deg, x: Real, y: Real):
    v = Vector2D(x, y)
    Vector2D.from_polar(r, d)
    Vector2D(r=r, a=d)
    v.rotated_vector(d)
    v.set_polar(r, d)
    v.set_dir(d)
    v.rotate(AngleDeg(d))
    check(no_effects(), "polar coordinates do no input or output")


def quiet_lines(a: Real, b: Real, c: Real, x: Real, y: Real, d: Real):
    n = Line2D(a, b, c)
    v = Vector2D(x, y)
    m = Line2D(v, Vector2D(a, b))
    n.get_x(y)
    n.get_y(x)
    n.is_parallel(m)
    n.intersection(m)
    n.perpendicular(v)
    n.projection(v)
    n.copy()
    n == m
    Line2D.line_intersection(m, n)
    Line2D(v, AngleDeg(d))
    Line2D(n)
    check(no_effects(), "lines do no input or output")


def quiet_bisector(x: Real, y: Real, p: Real, q: Real):
    assume(x != p or y != q)
    assume(abs(x - p) > 0.001 or abs(y - q) > 0.001)
    Line2D.perpendicular_bisector(Vector2D(x, y), Vector2D(p, q))
    Segment2D(x, y, p, q).perpendicular_bisector()
    check(no_effects(), "bisectors of different points do no input or output")


def quiet_rays(x: Real, y: Real, d: Deg, a: Real, b: Real, c: Real):
    r = Ray2D(Vector2D(x, y), d)
    r.line()
    r.copy()
    r.dir()
    r.in_right_dir(Vector2D(a, b))
    r == Ray2D(Vector2D(a, b), d)
    check(no_effects(), "rays do no input or output")


def quiet_segments(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    s = Segment2D(x, y, p, q)
    v = Vector2D(a, b)
    s.is_valid()
    s.line()
    s.length()
    s.direction()
    s.copy()
    s.reversed_segment()
    s.contains(v)
    s.projection(v)
    s.nearest_point(v)
    s.dist(v)
    s.farthest_dist(v)
    s.on_segment(v)
    s.on_segment_weakly(v)
    s.equals_weakly(s)
    s.swap()
    check(no_effects(), "segments do no input or output")


def quiet_segments_meeting(x: Real, y: Real, p: Real, q: Real):
    s = Segment2D(x, y, p, q)
    t = Segment2D(0.0, 0.0, 4.0, 2.0)
    s.exist_intersection(t)
    s.intersects_except_endpoint(t)
    s.exist_intersection(Line2D(1.0, 2.0, 3.0))
    s.intersection(Line2D(1.0, 2.0, 3.0))
    check(no_effects(), "crossing segments do no input or output")


def quiet_segments_crossing(x: Real, y: Real):
    s = Segment2D(x, y, 3.0, -1.0)
    t = Segment2D(0.0, 0.0, 4.0, 2.0)
    s.intersection(t)
    s.intersection(t, True)
    check(no_effects(), "intersections of segments do no input or output")


def quiet_triangles(x: Real, y: Real, p: Real, q: Real, a: Real, b: Real):
    t = Triangle2D(Vector2D(x, y), Vector2D(p, q), Vector2D(a, b))
    t.is_valid()
    t.area()
    t.signed_area()
    t.ccw()
    t.centroid()
    t.orthocenter()
    t.contains(Vector2D(1.0, 2.0))
    Triangle2D.tri_contains(t.a(), t.b(), t.c(), Vector2D(1.0, 2.0))
    t.assign(t.c(), t.b(), t.a())
    check(no_effects(), "triangles do no input or output")


def quiet_triangle_lines(a: Real, c: Real):
    t = Triangle2D(Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(1.0, 5.0))
    t.intersection(Line2D(a, 1.0, c))
    t.intersection(Line2D(1.0, 0.0, c))
    check(no_effects(), "triangle crossings do no input or output")


def quiet_rects(x: Real, y: Real, l: Real, w: Real, p: Real, q: Real, m: Real, n: Real):
    r = Rect2D(x, y, l, w)
    s = Rect2D(p, q, m, n)
    r.is_valid()
    r.area()
    r.center()
    r.size()
    r.left_edge()
    r.contains(Vector2D(p, q))
    r.contains_almost(Vector2D(p, q), 0.1)
    r.intersected(s)
    r.united(s)
    Rect2D(r)
    Rect2D(Vector2D(x, y), Vector2D(p, q))
    Rect2D.from_center(x, y, l, w)
    check(no_effects(), "rectangles do no input or output")


def quiet_rect_setters(x: Real, y: Real, l: NonNeg, w: NonNeg, p: Real, q: Real):
    r = Rect2D(x, y, l, w)
    r.set_left(p)
    r.set_top(q)
    r.set_right(q)
    r.set_bottom(p)
    r.move_center(Vector2D(p, q))
    r.move_left(p)
    r.move_bottom(q)
    r.set_size(p, q)
    r.set_length(q)
    check(no_effects(), "changing rectangles does no input or output")


def quiet_rect_corners(x: Real, y: Real, l: NonNeg, w: NonNeg, p: Real, q: Real):
    r = Rect2D(x, y, l, w)
    r.set_top_left(p, q)
    r = Rect2D(x, y, l, w)
    r.set_bottom_right(Vector2D(p, q))
    r.assign(Vector2D(x, y), Vector2D(p, q))
    check(no_effects(), "setting corners does no input or output")


def quiet_rect_lines(a: Real, c: Real):
    r = Rect2D(0.0, 0.0, 4.0, 3.0)
    r.intersection(Line2D(a, 1.0, c))
    r.intersection(Line2D(1.0, 0.0, c))
    check(no_effects(), "rectangle crossings do no input or output")


def quiet_circles(x: Real, y: Real, r: Real, p: Real, q: Real):
    c = Circle2D(Vector2D(x, y), r)
    c.area()
    c.contains(Vector2D(p, q))
    c.center()
    c.assign(Vector2D(p, q), r)
    check(no_effects(), "circles do no input or output")


def quiet_circle_lines(x: Real, y: Real, r: NonNeg, k: Real):
    c = Circle2D(Vector2D(x, y), r)
    c.intersection(Line2D(0.0, 1.0, k))
    c.intersection(Line2D(1.0, 0.5, k))
    c.intersection(Line2D(0.0, 0.0, k))
    check(no_effects(), "circle crossings do no input or output")


def quiet_sectors(x: Real, y: Real, m: NonNeg, k: NonNeg, d: Deg, e: Deg, p: Real, q: Real):
    s = Sector2D(Vector2D(x, y), m, k, d, e)
    s.area()
    s.get_circumference_min()
    s.get_circumference_max()
    s.center()
    s.angle_left_start()
    s.angle_right_end()
    s.contains(Vector2D(p, q))
    s.assign(Vector2D(p, q), k, m, e, d)
    check(no_effects(), "sectors do no input or output")


def quiet_polygons(x: Real, y: Real, p: Real, q: Real):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(x, y)])
    g.area()
    g.is_clockwise()
    g.is_counter_clockwise()
    g.get_bounding_box()
    g.vertices()
    g.add_vertex(Vector2D(p, q))
    g.assign([])
    g.assign([Vector2D(p, q)])
    g.dist(Vector2D(x, y))
    g.contains(Vector2D(x, y))
    g.clear()
    check(no_effects(), "polygons do no input or output")


def quiet_polygon_contains(x: Real, y: Real):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(1.0, 5.0)])
    g.contains(Vector2D(x, y))
    g.contains(Vector2D(x, y), False)
    check(no_effects(), "polygon containment does no input or output")


def quiet_polygon_clip(k: Real):
    g = Polygon2D([Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(1.0, 5.0)])
    g.get_rectangle_clipped_polygon(Rect2D(-9.0, -9.0, k, 30.0))
    check(no_effects(), "clipping does no input or output")


def quiet_matrices(a: Real, b: Real, c: Real, d: Real, x: Real, y: Real):
    m = Matrix2D(a, b, c, d, x, y)
    m.det()
    m.invertible()
    m.inverted()
    m.transform(x, y)
    m * m
    m * Vector2D(x, y)
    m.transform_vec(Vector2D(a, b))
    m == Matrix2D()
    m.translate(x, y)
    m.scale(a, b)
    m.reset()
    check(no_effects(), "matrices do no input or output")


def _quiet_hull(kind, x, y):
    assume(x > 5.0)
    assume(y > 6.0)
    h = ConvexHull([Vector2D(0.0, 0.0), Vector2D(4.0, 1.0), Vector2D(1.0, 5.0)])
    h.add_point(Vector2D(x, y))
    h.compute(kind)
    h.vertices()
    h.edges()
    h.to_polygon()
    h.clear()
    h.compute(kind)
    check(no_effects(), "hulls do no input or output")


def quiet_hull_wrap(x: Real, y: Real):
    _quiet_hull(MethodType.WRAPPING_METHOD, x, y)


def quiet_hull_scan(x: Real, y: Real):
    _quiet_hull(MethodType.GRAHAN_SCAN, x, y)


def quiet_hull_direct(x: Real, y: Real):
    _quiet_hull(MethodType.DIRECT_METHOD, x, y)


def quiet_soccer(a: Real, b: Real, c: Real, k: Frac):
    s = soccer_math
    s.dir_rate(a, b, c)
    s.final_speed(a, b, c, k)
    s.can_over_speed_max(a, b, c, k, 1.0)
    s.inertia_n_step_travel(Vector2D(a, b), 3, k)
    s.inertia_n_step_point(Vector2D(a, b), Vector2D(b, c), 3, k)
    s.inertia_n_step_distance(a, 3, k)
    s.inertia_final_travel(Vector2D(a, b), k)
    s.inertia_final_point(Vector2D(a, b), Vector2D(b, c), k)
    s.inertia_final_distance(a, k)
    s.bound(a, b, c)
    s.min_max(a, b, c)
    s.kick_rate(a, b, c, 0.1, 0.3, 0.7)
    check(no_effects(), "soccer formulas do no input or output")


def quiet_rounding(a: Real):
    s = soccer_math
    s.r_int(a)
    s.quantize(a, 0.1)
    s.unquantize_min(a, 0.1)
    s.unquantize_max(a, 0.1)
    check(no_effects(), "rounding does no input or output")
