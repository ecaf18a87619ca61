"""matrices as affine maps"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.matrix_2d import Matrix2D
from contracts.lib import same_xy


def _same(m, a, b, c, d, e, f, what):
    check(close((m.m11(), m.m12(), m.m21(), m.m22()), (a, b, c, d)), what + ": coefficients")
    check(close((m.dxtf(), m.dytf()), (e, f)), what + ": translation")


def construct(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    _same(Matrix2D(a, b, c, d, e, f), a, b, c, d, e, f, "constructor")
    _same(Matrix2D(), 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, "default")


def assign(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    m = Matrix2D(2.0, 3.0, 5.0, 7.0, 11.0, 13.0)
    m.assign(a, b, c, d, e, f)
    _same(m, a, b, c, d, e, f, "assign")


def reset(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    m = Matrix2D(a, b, c, d, e, f)
    m.reset()
    _same(m, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, "reset")


def identity(v: Vec):
    r = Matrix2D().transform(v)
    same_xy(r, v.x(), v.y(), "the default matrix is the identity")


def transform(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, v: Vec):
    m = Matrix2D(a, b, c, d, e, f)
    x = a * v.x() + b * v.y() + e
    y = c * v.x() + d * v.y() + f
    same_xy(m.transform(v), x, y, "transform(vector)")
    same_xy(m.transform(v.x(), v.y()), x, y, "transform(x, y)")
    same_xy(m * v, x, y, "matrix * vector")
    w = Vector2D(v.x(), v.y())
    r = m.transform_vec(w)
    same_xy(r, x, y, "transform_vec returns the image")
    same_xy(w, x, y, "transform_vec changes its argument to the image")


def transform_keeps(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, x: Real, y: Real):
    m = Matrix2D(a, b, c, d, e, f)
    v = Vector2D(x, y)
    m.transform(v)
    m * v
    same_xy(v, x, y, "transform and * leave the vector alone")
    _same(m, a, b, c, d, e, f, "transform leaves the matrix alone")


def determinant(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    check(close(Matrix2D(a, b, c, d, e, f).det(), a * d - b * c), "det")


def invertible(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    m = Matrix2D(a, b, c, d, e, f)
    z = a * d - b * c
    if z == 0.0:
        check(not m.invertible(), "a singular matrix is not invertible")
    if z > 0.00001 or z < -0.00001:
        check(m.invertible(), "a matrix with a clearly non-zero determinant is invertible")


def inverse_left(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, v: Vec):
    m = Matrix2D(a, b, c, d, e, f)
    assume(a * d - b * c != 0.0)
    i = m.inverted()
    same_xy(i.transform(m.transform(v)), v.x(), v.y(), "the inverse undoes the matrix")
    _same(m, a, b, c, d, e, f, "inverted leaves the matrix alone")


def inverse_right(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, v: Vec):
    m = Matrix2D(a, b, c, d, e, f)
    assume(a * d - b * c != 0.0)
    i = m.inverted()
    same_xy(m.transform(i.transform(v)), v.x(), v.y(), "the matrix undoes the inverse")


def inverse_product(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    m = Matrix2D(a, b, c, d, e, f)
    assume(a * d - b * c != 0.0)
    _same(m * m.inverted(), 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, "matrix times inverse")
    _same(m.inverted() * m, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, "inverse times matrix")


def singular_inverse(a: Real, b: Real, k: Real, e: Real, f: Real):
    m = Matrix2D(a, b, k * a, k * b, e, f)
    _same(m.inverted(), 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, "the inverse of a singular matrix is the identity")


def product(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real,
            g: Real, h: Real, i: Real, j: Real, k: Real, l: Real, v: Vec):
    m = Matrix2D(a, b, c, d, e, f)
    n = Matrix2D(g, h, i, j, k, l)
    p = m * n
    w = m.transform(n.transform(v))
    same_xy(p.transform(v), w.x(), w.y(), "the product is the composition")
    _same(m, a, b, c, d, e, f, "* leaves the left operand alone")
    _same(n, g, h, i, j, k, l, "* leaves the right operand alone")
    check(close(p.det(), m.det() * n.det()), "the determinant is multiplicative")
    check(p is not m and p is not n, "the product is a new matrix")


def product_inplace(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real,
                    g: Real, h: Real, i: Real, j: Real, k: Real, l: Real):
    m = Matrix2D(a, b, c, d, e, f)
    n = Matrix2D(g, h, i, j, k, l)
    p = m * n
    q = m
    q *= n
    check(q is m, "*= changes the left operand itself")
    _same(m, p.m11(), p.m12(), p.m21(), p.m22(), p.dxtf(), p.dytf(), "*= equals *")
    _same(n, g, h, i, j, k, l, "*= leaves the right operand alone")


def product_self(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, v: Vec):
    m = Matrix2D(a, b, c, d, e, f)
    w = m.transform(m.transform(v))
    m *= m
    same_xy(m.transform(v), w.x(), w.y(), "a matrix times itself")


def product_identity(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real):
    m = Matrix2D(a, b, c, d, e, f)
    _same(m * Matrix2D(), a, b, c, d, e, f, "identity on the right")
    _same(Matrix2D() * m, a, b, c, d, e, f, "identity on the left")


def product_associative(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, g: Real, h: Real, k: Real, l: Real):
    m = Matrix2D(a, b, c, d, e, f)
    n = Matrix2D(g, h, k, l, a, b)
    o = Matrix2D(c, k, f, h, g, l)
    p = (m * n) * o
    q = m * (n * o)
    _same(p, q.m11(), q.m12(), q.m21(), q.m22(), q.dxtf(), q.dytf(), "the product is associative")


def translate(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, x: Real, y: Real, v: Vec):
    m = Matrix2D(a, b, c, d, e, f)
    w = m.transform(v)
    m.translate(x, y)
    same_xy(m.transform(v), w.x() + x, w.y() + y, "translate moves the image")
    n = Matrix2D.make_translation(x, y)
    same_xy(n.transform(v), v.x() + x, v.y() + y, "make_translation moves")
    t = n * Matrix2D(a, b, c, d, e, f)
    _same(m, t.m11(), t.m12(), t.m21(), t.m22(), t.dxtf(), t.dytf(), "translate is the product with make_translation")


def scale(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, x: Real, y: Real, v: Vec):
    m = Matrix2D(a, b, c, d, e, f)
    w = m.transform(v)
    m.scale(x, y)
    same_xy(m.transform(v), w.x() * x, w.y() * y, "scale scales the image")
    n = Matrix2D.make_scaling(x, y)
    same_xy(n.transform(v), v.x() * x, v.y() * y, "make_scaling scales")
    t = n * Matrix2D(a, b, c, d, e, f)
    _same(m, t.m11(), t.m12(), t.m21(), t.m22(), t.dxtf(), t.dytf(), "scale is the product with make_scaling")


def rotate(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, p: DegOpen, v: Vec):
    m = Matrix2D(a, b, c, d, e, f)
    g = AngleDeg(p)
    w = m.transform(v)
    m.rotate(g)
    co = cosd(p)
    si = sind(p)
    same_xy(m.transform(v), w.x() * co - w.y() * si, w.x() * si + w.y() * co, "rotate turns the image")
    n = Matrix2D.make_rotation(g)
    same_xy(n.transform(v), v.x() * co - v.y() * si, v.x() * si + v.y() * co, "make_rotation turns")
    t = n * Matrix2D(a, b, c, d, e, f)
    _same(m, t.m11(), t.m12(), t.m21(), t.m22(), t.dxtf(), t.dytf(), "rotate is the product with make_rotation")
    check(close(g.degree(), p), "rotate leaves the angle alone")


def rotation_vector(p: DegOpen, v: Vec):
    """rotation by matrix and by vector agree"""
    w = Matrix2D.make_rotation(AngleDeg(p)).transform(v)
    u = v.rotated_vector(AngleDeg(p))
    same_xy(w, u.x(), u.y(), "rotation by matrix equals rotation of the vector")


def rotation_laws(p: DegOpen, q: DegOpen):
    m = Matrix2D.make_rotation(AngleDeg(p))
    n = Matrix2D.make_rotation(AngleDeg(q))
    t = m * n
    _same(t, cosd(p + q), -sind(p + q), sind(p + q), cosd(p + q), 0.0, 0.0, "rotations add")
    check(close(m.det(), 1.0), "a rotation has determinant 1")
    i = m.inverted()
    _same(i, cosd(p), sind(p), -sind(p), cosd(p), 0.0, 0.0, "the inverse of a rotation")


def translations_add(a: Real, b: Real, c: Real, d: Real):
    t = Matrix2D.make_translation(a, b) * Matrix2D.make_translation(c, d)
    _same(t, 1.0, 0.0, 0.0, 1.0, a + c, b + d, "translations add")
    t = Matrix2D.make_scaling(a, b) * Matrix2D.make_scaling(c, d)
    _same(t, a * c, 0.0, 0.0, b * d, 0.0, 0.0, "scalings multiply")


def chain(x: Real, y: Real, s: Real, t: Real, p: DegOpen, v: Vec):
    """translate, then scale, then rotate"""
    m = Matrix2D()
    m.translate(x, y)
    m.scale(s, t)
    m.rotate(AngleDeg(p))
    a = (v.x() + x) * s
    b = (v.y() + y) * t
    same_xy(m.transform(v), a * cosd(p) - b * sind(p), a * sind(p) + b * cosd(p), "steps apply in the order called")


def invertible_small(t: Frac):
    """the determinant decides, whatever its sign and whatever elements make it"""
    for s in (1.0, -1.0):
        for d, yes in ((s * (2.0 + t) * 0.000001, True), (s * (0.1 + 0.8 * t) * 0.000001, False), (s * (11.0 + 80.0 * t) * 0.000001, True),
                       (s * (1.0 + t), True)):
            for m in (Matrix2D(d, 0.0, 0.0, 1.0), Matrix2D(1.0, 0.0, 0.0, d), Matrix2D(0.0, d, 1.0, 0.0), Matrix2D(0.0, 1.0, d, 0.0),
                      Matrix2D(1.0, 1.0, 1.0, 1.0 + d, 5.0, -3.0), Matrix2D(1000.0, 0.0, 7.0, 0.001 * d)):
                check(m.invertible() == yes, "invertible unless the determinant is within the tolerance of zero")


def rotate_special(a: Real, b: Real, c: Real, d: Real, e: Real, f: Real, v: Vec):
    for k in (-180, -90, 0, 90, 180, 270, 360):
        m = Matrix2D(a, b, c, d, e, f)
        w = m.transform(v)
        m.rotate(AngleDeg(k))
        co, si = cosd(k), sind(k)
        same_xy(m.transform(v), w.x() * co - w.y() * si, w.x() * si + w.y() * co, "rotate turns the image by a multiple of 90 degrees")
        n = Matrix2D.make_rotation(AngleDeg(k))
        same_xy(n.transform(v), v.x() * co - v.y() * si, v.x() * si + v.y() * co, "make_rotation turns by a multiple of 90 degrees")
