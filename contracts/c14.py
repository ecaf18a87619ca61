"""rays"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from contracts.lib import same_vec, same_xy, same_ang, on_line


def construct(p: Vec, a: Ang):
    r = Ray2D(p, a)
    same_vec(r.origin(), p, "origin()")
    same_ang(r.dir(), a, "dir()")
    same_vec(r.origin_(), p, "origin_()")
    same_ang(r.dir_(), a, "dir_()")
    c = r.copy()
    same_vec(c.origin(), p, "copy keeps the origin")
    same_ang(c.dir(), a, "copy keeps the direction")


def construct_number(p: Vec, d: Real):
    r = Ray2D(p, d)
    same_vec(r.origin(), p, "origin()")
    same_ang(r.dir(), AngleDeg(d), "a number is a direction in degrees")


def construct_int(p: Vec, d: Int):
    same_ang(Ray2D(p, d).dir(), AngleDeg(d), "an integer is a direction in degrees")


def construct_points(p: Vec, q: Vec):
    r = Ray2D(p, q)
    same_vec(r.origin(), p, "origin()")
    same_ang(r.dir(), (q - p).th(), "the ray points to the second point")


def line(p: Vec, a: Ang, t: Real):
    n = Ray2D(p, a).line()
    on_line(n, Vector2D(p.x() + t * a.cos(), p.y() + t * a.sin()), "the ray lies on its line")


def ahead(p: Vec, a: Ang, t: Pos):
    assume(t > 0.000002)
    r = Ray2D(p, a)
    x = Vector2D(p.x() + t * a.cos(), p.y() + t * a.sin())
    check(r.in_right_dir(x), "a point ahead is in the right direction")


def behind(p: Vec, a: Ang, t: Pos):
    assume(t > 0.000002)
    r = Ray2D(p, a)
    x = Vector2D(p.x() - t * a.cos(), p.y() - t * a.sin())
    check(not r.in_right_dir(x), "a point behind is not in the right direction")


def cone(p: Vec, a: Ang, b: Ang, t: Pos, thr: Pos):
    """in_right_dir is the cone of half-angle thr around the direction"""
    assume(t > 0.000002)
    assume(-180.0 < b.degree())
    r = Ray2D(p, a)
    x = Vector2D(p.x() + t * b.cos(), p.y() + t * b.sin())
    check(r.in_right_dir(x, thr) == ((b - a).abs() < thr), "in_right_dir measures the angle to the point")
    check(r.in_right_dir(x) == ((b - a).abs() < 10.0), "the default half-angle is 10 degrees")


def crosses_line(p: Vec, a: Ang, t: Pos, w: Vec):
    """a line crossing the ray ahead of its origin is met at the crossing"""
    assume(t > 0.000002)
    cr = a.cos() * w.y() - a.sin() * w.x()
    assume(abs(cr) > 0.000002)
    x = Vector2D(p.x() + t * a.cos(), p.y() + t * a.sin())
    s = Ray2D(p, a).intersection(Line2D(x, x + w))
    check(s.is_valid(), "a line ahead is met")
    same_xy(s, x.x(), x.y(), "at the crossing")


def misses_line(p: Vec, a: Ang, t: Pos, w: Vec):
    assume(t > 0.000002)
    cr = a.cos() * w.y() - a.sin() * w.x()
    assume(abs(cr) > 0.000002)
    x = Vector2D(p.x() - t * a.cos(), p.y() - t * a.sin())
    s = Ray2D(p, a).intersection(Line2D(x, x + w))
    check(not s.is_valid(), "a line behind is not met")


def parallel_line(p: Vec, a: Ang, c: Real):
    n = Line2D(-a.sin(), a.cos(), c)
    check(not Ray2D(p, a).intersection(n).is_valid(), "a parallel line is not met")


def crosses_ray(x: Vec, a: Ang, t: Pos, b: Ang, u: Pos):
    """two rays meeting ahead of both origins"""
    assume(t > 0.000002)
    assume(u > 0.000002)
    cr = a.cos() * b.sin() - a.sin() * b.cos()
    assume(abs(cr) > 0.000002)
    p = Vector2D(x.x() - t * a.cos(), x.y() - t * a.sin())
    q = Vector2D(x.x() - u * b.cos(), x.y() - u * b.sin())
    s = Ray2D(p, a).intersection(Ray2D(q, b))
    check(s.is_valid(), "rays meeting ahead intersect")
    if s.is_valid():
        same_xy(s, x.x(), x.y(), "at the crossing")


def misses_ray(x: Vec, a: Ang, t: Pos, b: Ang, u: Pos):
    """the crossing of the lines lies behind one origin"""
    assume(t > 0.000002)
    assume(u > 0.000002)
    cr = a.cos() * b.sin() - a.sin() * b.cos()
    assume(abs(cr) > 0.000002)
    p = Vector2D(x.x() - t * a.cos(), x.y() - t * a.sin())
    q = Vector2D(x.x() + u * b.cos(), x.y() + u * b.sin())
    check(not Ray2D(p, a).intersection(Ray2D(q, b)).is_valid(), "a crossing behind the second ray is no intersection")
    check(not Ray2D(q, b).intersection(Ray2D(p, a)).is_valid(), "a crossing behind the first ray is no intersection")


def equality(p: Vec, q: Vec, a: Ang, b: Ang):
    check(Ray2D(p, a) == Ray2D(p, a), "rays with the same origin and direction are equal")
    if p.x() != q.x() or p.y() != q.y():
        check(not (Ray2D(p, a) == Ray2D(q, a)), "rays with different origins differ")
    if (b - a).abs() > 0.001:
        check(not (Ray2D(p, a) == Ray2D(p, b)), "rays with different directions differ")
    check((Ray2D(p, a) == Ray2D(q, b)) == (Ray2D(q, b) == Ray2D(p, a)), "ray equality is symmetric")
