"""invalid results are signalled and stay invalid when copied"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D


def _bad(x, y):
    v = Vector2D(x, y)
    v.invalidate()
    return v


# vectors

def vector_new(x: Real, y: Real, d: Deg):
    check(Vector2D().is_valid(), "a default vector is valid")
    check(Vector2D(x, y).is_valid(), "a vector from numbers is valid")
    check(Vector2D(x=x, y=y).is_valid(), "a vector from keywords is valid")
    check(Vector2D(r=x, a=d).is_valid(), "a vector from polar keywords is valid")
    check(Vector2D.from_polar(x, d).is_valid(), "a polar vector is valid")
    check(Vector2D.polar2vector(x, AngleDeg(d)).is_valid(), "a polar vector from an angle is valid")


def vector_invalid():
    v = Vector2D.invalid()
    check(not v.is_valid(), "invalid() is invalid")
    v.validate()
    check(v.is_valid(), "it can be validated")
    check(not Vector2D.invalid().is_valid(), "the next invalid() is invalid")
    check(Vector2D().is_valid(), "a default vector made afterwards is valid")


def vector_toggle(p: Vec):
    p.invalidate()
    check(not p.is_valid(), "invalidated")
    p.invalidate()
    check(not p.is_valid(), "invalidated twice")
    p.validate()
    check(p.is_valid(), "validated")
    p.validate()
    check(p.is_valid(), "validated twice")


def vector_toggle_keeps(x: Real, y: Real):
    p = Vector2D(x, y)
    p.invalidate()
    check(close((p.x(), p.y()), (x, y)), "invalidate keeps the coordinates")
    p.validate()
    check(close((p.x(), p.y()), (x, y)), "validate keeps the coordinates")


def vector_copies(x: Real, y: Real, k: Bool):
    p = Vector2D(x, y)
    if k:
        p.invalidate()
    check(p.is_valid() == (not k), "validity")
    check(Vector2D(p).is_valid() == (not k), "a vector built from a vector keeps the validity")
    check(p.copy().is_valid() == (not k), "copy keeps the validity")
    check(p.get_copy().is_valid() == (not k), "get_copy keeps the validity")
    q = Vector2D(y, x)
    q.set_vector(p)
    check(q.is_valid() == (not k), "set_vector takes the validity")
    q.invalidate()
    q.set_vector(p)
    check(q.is_valid() == (not k), "set_vector takes the validity of a vector, whatever it was before")
    check(p.is_valid() == (not k), "copying keeps the validity of the original")


def vector_queries(p: Vec, q: Vec, d: Deg, k: Bool):
    if k:
        p.invalidate()
    p.r()
    p.r2()
    p.th()
    p.dist(q)
    q.dist2(p)
    p.abs()
    p + q
    p - q
    p * 2.0
    p / 2.0
    p == q
    p.rotated_vector(d)
    p.normalize_vector()
    p.inner_product(q)
    p.outer_product(q)
    p.equals_weakly(q)
    check(p.is_valid() == (not k), "queries keep the validity")
    check(q.is_valid(), "queries keep the validity of the argument")


def vector_mutators(p: Vec, q: Vec, d: Deg, k: Bool):
    if k:
        p.invalidate()
    p += q
    p -= q
    p *= 2.0
    p /= 2.0
    p.rotate(d)
    p.set_x(3.0)
    p.set_y(4.0)
    p.set_length(2.0)
    p.normalize()
    p.set_dir(d)
    p.add(q)
    p.sub(q)
    p.add_x(1.0)
    p.add_y(1.0)
    p.sub_x(1.0)
    p.sub_y(1.0)
    check(p.is_valid() == (not k), "moving a vector keeps its validity")
    check(q.is_valid(), "moving a vector keeps the validity of the argument")


def vector_results(p: Vec, q: Vec, c: Real, d: Deg):
    check((p + q).is_valid(), "sums are valid")
    check((p - q).is_valid(), "differences are valid")
    check((p * c).is_valid(), "products are valid")
    check(p.rotated_vector(d).is_valid(), "rotated vectors are valid")
    check(p.abs().is_valid(), "absolute values are valid")
    check(p.normalize_vector().is_valid(), "unit vectors are valid")


# what holds a vector keeps its validity

def holders(x: Real, y: Real, q: Vec, d: Deg, k: Bool):
    p = Vector2D(x, y)
    if k:
        p.invalidate()
    v = not k
    s = Segment2D(p, q)
    check(s.origin().is_valid() == v, "the origin of a segment")
    check(s.terminal().is_valid(), "the terminal of the segment")
    s = Segment2D(q, p)
    check(s.terminal().is_valid() == v, "the terminal of a segment")
    check(s.origin().is_valid(), "the origin of the segment")
    check(Segment2D(p, 2.0, d).origin().is_valid() == v, "the origin of a polar segment")
    check(Ray2D(p, d).origin().is_valid() == v, "the origin of a ray")
    check(Circle2D(p, 2.0).center().is_valid() == v, "the center of a circle")
    check(Sector2D(p, 1.0, 2.0, d, d).center().is_valid() == v, "the center of a sector")
    check(Rect2D(p, 1.0, 2.0).top_left().is_valid() == v, "the corner of a rectangle")
    check(Rect2D(p, Size2D(1.0, 2.0)).top_left().is_valid() == v, "the corner of a rectangle with a size")


def holders_assigned(x: Real, y: Real, q: Vec, d: Deg, k: Bool):
    p = Vector2D(x, y)
    if k:
        p.invalidate()
    v = not k
    s = Segment2D(q, q)
    s.assign(p, q)
    check(s.origin().is_valid() == v, "the origin of a segment")
    s.assign(q, p)
    check(s.terminal().is_valid() == v, "the terminal of a segment")
    check(s.origin().is_valid(), "the origin assigned a valid point")
    c = Circle2D(q, 1.0)
    c.assign(p, 2.0)
    check(c.center().is_valid() == v, "the center of a circle")
    e = Sector2D(q, 1.0, 2.0, d, d)
    e.assign(p, 1.0, 2.0, d, d)
    check(e.center().is_valid() == v, "the center of a sector")


def holder_triangle(x: Real, y: Real, q: Vec, r: Vec, k: Bool):
    p = Vector2D(x, y)
    if k:
        p.invalidate()
    v = not k
    check(Triangle2D(p, q, r).a().is_valid() == v, "the first corner of a triangle")
    check(Triangle2D(q, p, r).b().is_valid() == v, "the second corner of a triangle")
    check(Triangle2D(q, r, p).c().is_valid() == v, "the third corner of a triangle")
    check(Triangle2D(Segment2D(p, q), r).a().is_valid() == v, "the origin of the side of a triangle")
    check(Triangle2D(Segment2D(q, p), r).b().is_valid() == v, "the terminal of the side of a triangle")
    check(Polygon2D([q, p, r]).vertices()[1].is_valid() == v, "the vertex of a polygon")
    check(Polygon2D([q, p, r]).vertices()[0].is_valid(), "the other vertex of a polygon")
    g = Polygon2D([q, r])
    g.add_vertex(p)
    check(g.vertices()[2].is_valid() == v, "the vertex added to a polygon")


# segments

def segment_valid(p: Vec, q: Vec):
    assume(abs(p.x() - q.x()) > 0.0000011 or abs(p.y() - q.y()) > 0.0000011)
    check(Segment2D(p, q).is_valid(), "a segment with two different ends is valid")


def segment_degenerate(p: Vec, x: Real, y: Real):
    assume(abs(x) < 0.0000009 and abs(y) < 0.0000009)
    check(not Segment2D(p, p).is_valid(), "a segment of one point is invalid")
    check(not Segment2D(p, p + Vector2D(x, y)).is_valid(), "a segment shorter than the tolerance is invalid")
    check(not Segment2D().is_valid(), "the default segment is invalid")


def segment_reassigned(p: Vec, q: Vec):
    assume(abs(p.x() - q.x()) > 0.0000011 or abs(p.y() - q.y()) > 0.0000011)
    s = Segment2D(p, p)
    s.is_valid()
    s.assign(p, q)
    check(s.is_valid(), "a segment assigned different ends is valid")
    s.assign(q, q)
    check(not s.is_valid(), "a segment assigned one point is invalid")


# triangles

def triangle_valid(p: Vec, q: Vec, r: Vec):
    t = Triangle2D(p, q, r)
    check(t.is_valid() == (p != q and q != r and p != r), "a triangle is valid when its corners differ")


def triangle_corner(p: Vec, q: Vec, r: Vec, x: Real, y: Real):
    b = _bad(x, y)
    check(not Triangle2D(b, q, r).is_valid(), "a triangle with an invalid first corner")
    check(not Triangle2D(q, b, r).is_valid(), "a triangle with an invalid second corner")
    check(not Triangle2D(q, r, b).is_valid(), "a triangle with an invalid third corner")
    check(not Triangle2D(Segment2D(q, b), r).is_valid(), "a triangle over a side with an invalid end")


def triangle_reassigned(p: Vec, q: Vec, r: Vec):
    assume(p != q and q != r and p != r)
    t = Triangle2D(p, p, r)
    check(not t.is_valid(), "two equal corners")
    t.assign(p, q, r)
    check(t.is_valid(), "assigned different corners")
    t.assign(p, q, q)
    check(not t.is_valid(), "assigned equal corners")


# sizes and rectangles

def size_valid(a: Real, b: Real):
    check(Size2D(a, b).is_valid() == (a != 0.0 and b != 0.0), "a size is valid when both sides are positive")
    s = Size2D()
    check(not s.is_valid(), "the default size is invalid")
    s.assign(a, b)
    check(s.is_valid() == (a != 0.0 and b != 0.0), "assigned size")
    s.set_length(0.0)
    check(not s.is_valid(), "a size without length")
    s = Size2D(a, b)
    s.set_width(0.0)
    check(not s.is_valid(), "a size without width")


def rect_valid(p: Vec, a: Real, b: Real):
    v = a != 0.0 and b != 0.0
    check(Rect2D(p.x(), p.y(), a, b).is_valid() == v, "a rectangle of numbers")
    check(Rect2D(p, a, b).is_valid() == v, "a rectangle of a corner and lengths")
    check(Rect2D(p, Size2D(a, b)).is_valid() == v, "a rectangle of a corner and a size")
    check(Rect2D(Rect2D(p, a, b)).is_valid() == v, "a copied rectangle")
    check(Rect2D.from_center(p, a, b).is_valid() == v, "a rectangle around its center")


def rect_points(p: Vec, q: Vec):
    v = p.x() != q.x() and p.y() != q.y()
    check(Rect2D(p, q).is_valid() == v, "a rectangle of corners")


def rect_resized(p: Vec, a: Pos, b: Pos):
    r = Rect2D(p, a, b)
    check(r.is_valid(), "valid before")
    r.set_length(0.0)
    check(not r.is_valid(), "a rectangle without length")
    r.set_length(a)
    check(r.is_valid(), "a rectangle with its length again")
    r.set_width(0.0)
    check(not r.is_valid(), "a rectangle without width")
    r.set_size(a, b)
    check(r.is_valid(), "a rectangle with its size again")
    r.assign(p, 0.0, b)
    check(not r.is_valid(), "a rectangle assigned no length")
    r.assign(p, a, b)
    check(r.is_valid(), "a rectangle assigned a size")


def rect_moved(p: Vec, q: Vec, a: Real, b: Real):
    v = a != 0.0 and b != 0.0
    r = Rect2D(p, a, b)
    r.move_center(q)
    check(r.is_valid() == v, "moved to a center")
    r.move_top_left(q)
    check(r.is_valid() == v, "moved to a corner")
    r.move_bottom_right(q)
    check(r.is_valid() == v, "moved to the other corner")
    check(r.size().is_valid() == v, "the size of a moved rectangle")


def rect_copy_assign(p: Vec, a: Real, b: Real):
    v = a != 0.0 and b != 0.0
    r = Rect2D(p, 0.0, 0.0)
    r.is_valid()
    r.assign(Rect2D(p, a, b))
    check(r.is_valid() == v, "a rectangle assigned from a rectangle")


# results

def no_line_intersection(p: Vec, d: Deg, t: Real):
    n = Line2D(p, d)
    m = Line2D(p + Vector2D.from_polar(t, d + 90.0), d)
    check(not n.intersection(m).is_valid(), "parallel lines have no intersection")


def line_intersection_any(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    p = Line2D(a, b, c).intersection(Line2D(d, e, f))
    assume(abs(a * e - b * d) > 0.0000011)
    check(p.is_valid(), "lines that are not parallel intersect")


def vertical_lines(x: Real, w: Real, y: Real):
    n = Line2D(Vector2D(x, y), Vector2D(x, y + 5.0))
    m = Line2D(Vector2D(w, y), Vector2D(w, y + 7.0))
    check(not n.intersection(m).is_valid(), "two vertical lines have no intersection")


def segments_apart(x: Real, y: Real, a: Pos, b: Pos, g: Pos):
    s = Segment2D(Vector2D(x, y), Vector2D(x + a, y))
    t = Segment2D(Vector2D(x, y + g), Vector2D(x + b, y + g))
    assume(a > 0.01 and b > 0.01 and g > 0.01)
    check(not s.intersection(t).is_valid(), "parallel segments have no intersection")


def ray_away(x: Real, y: Real, g: Pos):
    r = Ray2D(Vector2D(x, y), 0.0)
    n = Line2D(Vector2D(x - g, y), 90.0)
    assume(g > 0.01)
    check(not r.intersection(n).is_valid(), "a ray does not meet a line behind it")
    check(r.intersection(Line2D(Vector2D(x + g, y), 90.0)).is_valid(), "a ray meets a line before it")


def transform_keeps(x: Real, y: Real, a: Real, b: Real):
    m = Matrix2D.make_translation(a, b)
    p = Vector2D(x, y)
    check(m.transform(p).is_valid(), "a transformed point is valid")
    check(p.is_valid(), "the transformed point stays valid")


def segment_turned(x: Real, y: Real, w: Real, z: Real):
    """an invalid end stays the invalid one when the ends are exchanged"""
    p = Vector2D(x, y)
    p.invalidate()
    q = Vector2D(w, z)
    for s in (Segment2D(p, q).swap(), Segment2D(p, q).reverse(), Segment2D(p, q).reversed_segment()):
        check(s.origin().is_valid() and not s.terminal().is_valid(), "exchanging the ends carries the invalid one along")
        s.swap()
        check(not s.origin().is_valid() and s.terminal().is_valid(), "exchanging the ends back carries the invalid one along")
