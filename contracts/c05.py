"""vector algebra"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from contracts.lib import same_xy, same_vec


def construct(x: Real, y: Real):
    same_xy(Vector2D(x, y), x, y, "Vector2D(x, y)")
    same_xy(Vector2D(x=x, y=y), x, y, "Vector2D(x=, y=)")
    same_xy(Vector2D(Vector2D(x, y)), x, y, "Vector2D(vector)")
    same_xy(Vector2D(), 0.0, 0.0, "Vector2D() is the zero vector")
    v = Vector2D(x, y)
    check(close((v.get_x(), v.get_y()), (x, y)), "get_x/get_y")
    same_xy(v.copy(), x, y, "copy")
    same_xy(v.get_copy(), x, y, "get_copy")


def construct_int(x: Int, y: Int):
    same_xy(Vector2D(x, y), x, y, "Vector2D(int, int)")
    same_xy(Vector2D(x=x, y=y), x, y, "Vector2D(x=int, y=int)")


def setters(v: Vec, w: Vec, x: Real, y: Real):
    oy = v.y()
    v.set_x(x)
    same_xy(v, x, oy, "set_x")
    v.set_y(y)
    same_xy(v, x, y, "set_y")
    v.set_x_y(y, x)
    same_xy(v, y, x, "set_x_y")
    r = v.assign(x, y)
    check(r is v, "assign returns the vector")
    same_xy(v, x, y, "assign")
    v.set_vector(w)
    same_vec(v, w, "set_vector")


def operators(v: Vec, w: Vec, k: Real):
    x = v.x()
    y = v.y()
    p = w.x()
    q = w.y()
    same_xy(v + w, x + p, y + q, "v + w")
    same_xy(v - w, x - p, y - q, "v - w")
    same_xy(v * k, x * k, y * k, "v * k")
    same_xy(v, x, y, "left operand kept")
    same_xy(w, p, q, "right operand kept")


def division(v: Vec, k: Real):
    assume(k != 0.0)
    x = v.x()
    y = v.y()
    d = v / k
    check(close((d.x() * k, d.y() * k), (x, y)), "v / k")
    same_xy(v, x, y, "operand kept")
    u = v
    v /= k
    check(v is u, "/= keeps the object")
    same_vec(v, d, "/= agrees with /")


def in_place(v: Vec, w: Vec, k: Real):
    a = v + w
    b = v - w
    c = v * k
    u = v.copy()
    t = u
    u += w
    check(u is t, "+= keeps the object")
    same_vec(u, a, "+= agrees with +")
    u = v.copy()
    t = u
    u -= w
    check(u is t, "-= keeps the object")
    same_vec(u, b, "-= agrees with -")
    u = v.copy()
    t = u
    u *= k
    check(u is t, "*= keeps the object")
    same_vec(u, c, "*= agrees with *")


def add_methods(v: Vec, w: Vec, x: Real, y: Real):
    p = v.x()
    q = v.y()
    u = v.copy()
    u.add(w)
    same_vec(u, v + w, "add(vector) agrees with +")
    u = v.copy()
    u.add(x, y)
    same_xy(u, p + x, q + y, "add(x, y)")
    u = v.copy()
    u.add_x(x)
    same_xy(u, p + x, q, "add_x")
    u.add_y(y)
    same_xy(u, p + x, q + y, "add_y")


def sub_methods(v: Vec, w: Vec, x: Real, y: Real):
    p = v.x()
    q = v.y()
    u = v.copy()
    u.sub(w)
    same_vec(u, v - w, "sub(vector) agrees with -")
    u = v.copy()
    u.sub(x, y)
    same_xy(u, p - x, q - y, "sub(x, y)")
    u = v.copy()
    u.sub_x(x)
    same_xy(u, p - x, q, "sub_x")
    u.sub_y(y)
    same_xy(u, p - x, q - y, "sub_y")


def scaling(v: Vec, k: Real):
    u = v.copy()
    u.scale(k)
    same_vec(u, v * k, "scale agrees with *")


def reversal(v: Vec):
    x = v.x()
    y = v.y()
    same_xy(v.reverse_vector(), -x, -y, "reverse_vector")
    same_xy(v, x, y, "reverse_vector keeps the vector")
    r = v.reverse()
    check(r is v, "reverse returns the vector")
    same_xy(v, -x, -y, "reverse")


def absolute(v: Vec):
    same_xy(v.abs(), abs(v.x()), abs(v.y()), "abs")
    check(close(v.abs_x(), abs(v.x())), "abs_x")
    check(close(v.abs_y(), abs(v.y())), "abs_y")


def products(v: Vec, w: Vec):
    check(close(v.inner_product(w), v.x() * w.x() + v.y() * w.y()), "inner_product")
    check(close(v.outer_product(w), v.x() * w.y() - v.y() * w.x()), "outer_product")
    check(close(v.inner_product(w), w.inner_product(v)), "inner product is symmetric")
    check(close(v.outer_product(w), -w.outer_product(v)), "outer product is antisymmetric")
    check(close(Vector2D.inner_product_static(v, w), v.inner_product(w)), "inner_product_static")
    check(close(Vector2D.outer_product_static(v, w), v.outer_product(w)), "outer_product_static")
    check(close(v.inner_product(w) ** 2 + v.outer_product(w) ** 2, v.r2() * w.r2()), "Lagrange identity")


def squared_lengths(v: Vec, w: Vec):
    check(close(v.r2(), v.x() * v.x() + v.y() * v.y()), "r2")
    check(close(v.length2(), v.r2()), "length2 is r2")
    check(close(v.dist2(w), (v - w).r2()), "dist2 is the squared length of the difference")
    check(close(v.dist2(w), w.dist2(v)), "dist2 is symmetric")


def ring_laws(u: Vec, v: Vec, w: Vec, k: Real):
    same_vec(u + v, v + u, "addition commutes")
    same_vec((u + v) + w, u + (v + w), "addition associates")
    same_vec((u + v) - v, u, "(u + v) - v = u")
    same_vec((u + v) * k, u * k + v * k, "scaling distributes")


def integers(v: IntVec, w: IntVec, k: Int):
    same_xy(v + w, v.x() + w.x(), v.y() + w.y(), "int + int")
    same_xy(v - w, v.x() - w.x(), v.y() - w.y(), "int - int")
    same_xy(v * k, v.x() * k, v.y() * k, "int * int")
    check(close(v.dist2(w), (v - w).r2()), "dist2 of integer vectors")
    assume(k != 0)
    d = v / k
    check(close((d.x() * k, d.y() * k), (v.x(), v.y())), "int / int is true division")
    u = v.copy()
    u /= k
    same_vec(u, d, "int /= int agrees with /")


def aliased_operands(v: Vec):
    x = v.x()
    y = v.y()
    u = v.copy()
    u += u
    same_xy(u, x + x, y + y, "v += v")
    u = v.copy()
    u -= u
    same_xy(u, 0.0, 0.0, "v -= v")
    u = v.copy()
    u.add(u)
    same_xy(u, x + x, y + y, "v.add(v)")
    u = v.copy()
    u.sub(u)
    same_xy(u, 0.0, 0.0, "v.sub(v)")
    u = v.copy()
    u.set_vector(u)
    same_xy(u, x, y, "v.set_vector(v)")


def new_results(v: Vec, w: Vec, k: Real):
    x = v.x()
    y = v.y()
    p = w.x()
    q = w.y()
    for r in (v + w, v - w, v * k, v * 2, v + Vector2D(k, 0.0), v - Vector2D(0.0, k), v.abs(), v.reverse_vector(),
              v.copy(), v.get_copy(), Vector2D(v)):
        check(r is not v and r is not w, "a binary operation or copy returns a new vector")
        r.add(1.0, 2.0)
        same_xy(v, x, y, "changing the result keeps the left operand")
        same_xy(w, p, q, "changing the result keeps the right operand")


def new_quotient(v: Vec, k: Real):
    assume(k != 0.0)
    x = v.x()
    y = v.y()
    r = v / k
    check(r is not v, "a quotient is a new vector")
    r.add(1.0, 2.0)
    same_xy(v, x, y, "changing the quotient keeps the operand")
