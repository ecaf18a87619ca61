"""circles: representation, area, containment"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.circle_2d import Circle2D
from contracts.lib import same_xy
import math


def construct(p: Vec, r: NonNeg):
    k = Circle2D(p, r)
    same_xy(k.center(), p.x(), p.y(), "the centre is kept")
    same_xy(k.center_(), p.x(), p.y(), "the centre is kept (reference)")
    check(close(k.radius(), r), "the radius is kept")
    check(close(k.area(), math.pi * r * r), "area")


def construct_negative(p: Vec, r: Neg):
    k = Circle2D(p, r)
    same_xy(k.center(), p.x(), p.y(), "the centre is kept with a negative radius")
    check(close(k.radius(), 0.0), "a negative radius becomes 0")
    check(close(k.area(), 0.0), "no area")


def default():
    k = Circle2D()
    same_xy(k.center(), 0.0, 0.0, "the default circle is at the origin")
    check(close(k.radius(), 0.0), "the default circle has radius 0")


def defaults_partly(p: Vec, r: NonNeg):
    check(close(Circle2D(p).radius(), 0.0), "the radius defaults to 0")
    same_xy(Circle2D(radius=r).center(), 0.0, 0.0, "the centre defaults to the origin")
    check(close(Circle2D(radius=r).radius(), r), "the radius is kept (keyword)")


def assign(p: Vec, r: Real, q: Vec, s: Real):
    k = Circle2D(p, r)
    k.assign(q, s)
    same_xy(k.center(), q.x(), q.y(), "assign sets the centre")
    check(close(k.radius(), max(0.0, s)), "assign sets the radius")


def contains(p: Vec, r: NonNeg, x: Vec):
    k = Circle2D(p, r)
    d = (x.x() - p.x()) * (x.x() - p.x()) + (x.y() - p.y()) * (x.y() - p.y())
    check(k.contains(x) == (d < r * r), "contains exactly the points nearer than the radius")


def contains_polar(p: Vec, r: NonNeg, d: NonNeg, a: Ang):
    x = p + Vector2D.from_polar(d, a)
    check(Circle2D(p, r).contains(x) == (d < r), "a point at a distance is contained when that is less than the radius")
    check(Circle2D(p, r).contains(p) == (r > 0.0), "the centre is contained")
