"""magnitude, direction, rotation"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from contracts.lib import same_xy, same_vec, same_ang


def magnitude(v: Vec):
    check(v.r() >= 0.0, "r() is non-negative")
    check(close(v.r() * v.r(), v.r2()), "r() squared is r2()")
    check(close(v.length(), v.r()), "length() is r()")


def distance(v: Vec, w: Vec):
    check(v.dist(w) >= 0.0, "dist is non-negative")
    check(close(v.dist(w) * v.dist(w), v.dist2(w)), "dist squared is dist2")
    check(close(v.dist(w), w.dist(v)), "dist is symmetric")
    check(close(v.dist(w), (v - w).r()), "dist is the length of the difference")


def direction(v: Vec):
    t = v.th()
    same_ang(v.dir(), t, "dir() is th()")
    if abs(v.x()) < 0.000001 and abs(v.y()) < 0.000001:
        check(close(t.degree(), 0.0), "the direction of a zero vector is 0")
    else:
        check(close((v.r() * t.cos(), v.r() * t.sin()), (v.x(), v.y())), "v is r() along th()")


def quadrants(y: Pos, x: Pos):
    check(Vector2D(x, y).th().degree() >= 0.0, "first quadrant")
    check(Vector2D(x, y).th().degree() <= 90.0, "first quadrant <= 90")
    check(Vector2D(-x, y).th().degree() >= 0.0, "second quadrant")
    check(Vector2D(x, -y).th().degree() <= 0.0, "fourth quadrant")
    check(Vector2D(-x, -y).th().degree() <= 0.0, "third quadrant")


def set_length(v: Vec, k: NonNeg):
    assume(v.r2() > 0.000000000004)
    o = v.copy()
    u = v.set_length_vector(k)
    same_vec(v, o, "set_length_vector keeps the vector")
    check(close(u.r(), k), "set_length_vector has the requested length")
    check(close(u.outer_product(o), 0.0), "set_length_vector keeps the line")
    check(u.inner_product(o) >= 0.0, "set_length_vector keeps the sense")
    v.set_length(k)
    same_vec(v, u, "set_length agrees with set_length_vector")


def set_length_negative(v: Vec, k: Neg):
    assume(v.r2() > 0.000000000004)
    o = v.copy()
    v.set_length(k)
    check(close(v.r(), -k), "a negative length has its magnitude")
    check(v.inner_product(o) <= 0.0, "a negative length reverses the sense")


def set_length_zero():
    v = Vector2D(0.0, 0.0)
    v.set_length(5.0)
    same_xy(v, 0.0, 0.0, "set_length of the zero vector")
    v.normalize()
    same_xy(v, 0.0, 0.0, "normalize of the zero vector")
    same_xy(v.normalize_vector(), 0.0, 0.0, "normalize_vector of the zero vector")
    same_xy(v.set_length_vector(3.0), 0.0, 0.0, "set_length_vector of the zero vector")


def normalise(v: Vec):
    assume(v.r2() > 0.000000000004)
    o = v.copy()
    u = v.normalize_vector()
    same_vec(v, o, "normalize_vector keeps the vector")
    check(close(u.r(), 1.0), "normalize_vector is a unit vector")
    check(close(u.outer_product(o), 0.0), "normalize_vector keeps the line")
    check(u.inner_product(o) > 0.0, "normalize_vector keeps the sense")
    v.normalize()
    same_vec(v, u, "normalize agrees with normalize_vector")


def rotate(v: Vec, d: Real):
    x = v.x()
    y = v.y()
    c = cosd(d)
    s = sind(d)
    u = v.rotated_vector(d)
    same_xy(u, x * c - y * s, x * s + y * c, "rotated_vector is the rotation by d degrees")
    same_xy(v, x, y, "rotated_vector keeps the vector")
    check(close(u.r2(), v.r2()), "rotation keeps the length")
    r = v.rotate(d)
    check(r is v, "rotate returns the vector")
    same_vec(v, u, "rotate agrees with rotated_vector")


def rotate_angle(v: Vec, a: Ang):
    u = v.rotated_vector(a)
    same_vec(u, v.rotated_vector(a.degree()), "rotated_vector(angle) is rotated_vector(degrees)")
    d = a.degree()
    v.rotate(a)
    same_vec(v, u, "rotate(angle) agrees with rotated_vector(angle)")
    check(close(a.degree(), d), "rotate keeps its angle")


def rotate_int(v: Vec, k: Int):
    x = v.x()
    y = v.y()
    v.rotate(k)
    same_xy(v, x * cosd(k) - y * sind(k), x * sind(k) + y * cosd(k), "rotate(int)")


def rotate_compose(v: Vec, a: Ang, b: Ang):
    u = v.rotated_vector(a).rotated_vector(b)
    same_vec(u, v.rotated_vector(a + b), "rotations compose")
    same_vec(v.rotated_vector(a).rotated_vector(-a), v, "rotating back")


def set_dir(v: Vec, a: Ang):
    r = v.r()
    v.set_dir(a)
    same_xy(v, r * a.cos(), r * a.sin(), "set_dir keeps the length and takes the direction")


def set_dir_number(v: Vec, d: Real):
    u = v.copy()
    u.set_dir(AngleDeg(d))
    v.set_dir(d)
    same_vec(u, v, "set_dir(float) is set_dir(angle)")


def polar(k: Real, a: Ang):
    x = k * a.cos()
    y = k * a.sin()
    same_xy(Vector2D.from_polar(k, a), x, y, "from_polar")
    same_xy(Vector2D.polar2vector(k, a), x, y, "polar2vector")
    same_xy(Vector2D(r=k, a=a), x, y, "Vector2D(r=, a=)")
    v = Vector2D(3.0, 4.0)
    v.set_polar(k, a)
    same_xy(v, x, y, "set_polar")


def polar_number(k: Real, d: Real):
    x = k * cosd(d)
    y = k * sind(d)
    same_xy(Vector2D.from_polar(k, d), x, y, "from_polar(float)")
    same_xy(Vector2D.polar2vector(k, d), x, y, "polar2vector(float)")
    same_xy(Vector2D(r=k, a=d), x, y, "Vector2D(r=, a=float)")
    v = Vector2D(3.0, 4.0)
    v.set_polar(k, d)
    same_xy(v, x, y, "set_polar(float)")


def polar_roundtrip(v: Vec):
    assume(v.r2() > 0.000000000004)
    same_vec(Vector2D.from_polar(v.r(), v.th()), v, "from_polar(r, th) restores the vector")


def reverse_direction(v: Vec):
    assume(v.r2() > 0.000000000004)
    t = v.th()
    u = v.reverse_vector()
    check(close((u.th().cos(), u.th().sin()), (-t.cos(), -t.sin())), "the reversed vector points the other way")
