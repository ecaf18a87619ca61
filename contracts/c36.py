"""printed forms: the text of an object shows each of its components, in order and unrounded"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.line_2d import Line2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.convex_hull import ConvexHull


def _vt(v):
    return "(" + str(v.x()) + "," + str(v.y()) + ")"


def vector(x: Real, y: Real):
    v = Vector2D(x, y)
    check(str(v) == _vt(v), "str of a vector shows x and y")
    check(repr(v) == _vt(v), "repr of a vector shows x and y")
    check(f"{v}" == _vt(v), "a formatted vector shows x and y")


def vector_now(p: Vec, x: Real, y: Real):
    str(p)
    p.assign(x, y)
    check(str(p) == "(" + str(x) + "," + str(y) + ")", "str of a vector after assign")
    p += Vector2D(y, x)
    check(str(p) == _vt(p), "str of a vector after +=")


def vector_values(x: Int):
    for v, t in ((Vector2D(1.5, -2.25), "(1.5,-2.25)"), (Vector2D(0.001, 100.0), "(0.001,100.0)"), (Vector2D(0.0, 123456.75), "(0.0,123456.75)"), (Vector2D(1, -2), "(1,-2)"), (Vector2D(0.1234567, -0.00012), "(0.1234567,-0.00012)")):
        check(str(v) == t, "str of a given vector")


def angle(d: Deg):
    a = AngleDeg(d)
    check(str(a) == str(a.degree()), "str of an angle is that of its degree")
    check(repr(a) == str(a.degree()), "repr of an angle is that of its degree")


def angle_values(x: Int):
    for a, t in ((AngleDeg(30.0), "30.0"), (AngleDeg(-120.5), "-120.5"), (AngleDeg(270.0), "-90.0"), (AngleDeg(0.125), "0.125"), (AngleDeg(12.34567), "12.34567")):
        check(str(a) == t, "str of a given angle")


def line(a: Real, b: Real, c: Real):
    assume(c != 0.0)
    n = Line2D(a, b, c)
    check(str(n) == "(" + str(n.a()) + " X + " + str(n.b()) + " Y + " + str(n.c()) + " = 0)", "str of a line shows a, b and c")


def line_origin(a: Real, b: Real):
    n = Line2D(a, b, 0.0)
    check(str(n) == "(" + str(n.a()) + " X + " + str(n.b()) + " Y = 0)", "str of a line through the origin shows a and b")


def line_small(a: Real, b: Real):
    for c in (1.0e-3, -1.0e-3, 1.0e-5, -0.5, 1.0e6):
        n = Line2D(a, b, c)
        check(str(n) == "(" + str(a) + " X + " + str(b) + " Y + " + str(c) + " = 0)", "str of a line with a small constant")


def ray(p: Vec, d: Deg):
    r = Ray2D(p, AngleDeg(d))
    check(str(r) == _vt(r.origin()) + " dir : " + str(r.dir().degree()), "str of a ray shows origin and direction")


def segment(p: Vec, q: Vec):
    s = Segment2D(p, q)
    check(str(s) == "[" + _vt(p) + "," + _vt(q) + "]", "str of a segment shows both ends")
    s.swap()
    check(str(s) == "[" + _vt(q) + "," + _vt(p) + "]", "str of a swapped segment shows both ends")


def triangle(p: Vec, q: Vec, r: Vec):
    check(str(Triangle2D(p, q, r)) == "[" + _vt(p) + "," + _vt(q) + "," + _vt(r) + "]", "str of a triangle shows the vertices")


def size(x: NonNeg, y: NonNeg):
    s = Size2D(x, y)
    check(str(s) == "[len:" + str(s.length()) + ",wid:" + str(s.width()) + "]", "str of a size shows length and width")
    check(str(s) == "[len:" + str(x) + ",wid:" + str(y) + "]", "str of a size shows what it was built from")


def rect(x: Real, y: Real, a: Pos, b: Pos):
    r = Rect2D(x, y, a, b)
    check(str(r) == "[topleft:" + _vt(r.top_left()) + ",len:" + str(r.size().length()) + ",wid:" + str(r.size().width()) + "]", "str of a rectangle shows corner, length and width")
    check(str(r) == "[topleft:(" + str(x) + "," + str(y) + "),len:" + str(a) + ",wid:" + str(b) + "]", "str of a rectangle shows what it was built from")


def circle(p: Vec, r: NonNeg):
    check(str(Circle2D(p, r)) == "(" + _vt(p) + " , " + str(r) + ")", "str of a circle shows centre and radius")


def sector(p: Vec, a: NonNeg, b: Pos, d: Deg, e: Deg):
    s = Sector2D(p, a, b, AngleDeg(d), AngleDeg(e))
    w = str(s).split()
    check(w == ["[v(" + _vt(p) + ")", "a(" + str(s.angle_left_start().degree()) + ",", str(s.angle_right_end().degree()) + ")", "r(" + str(s.radius_min()) + ",", str(s.radius_max()) + ")]"], "str of a sector shows centre, angles and radii")


def polygon(p: Vec, q: Vec, r: Vec):
    g = Polygon2D([p, q, r])
    check(str(g) == "([" + _vt(p) + ", " + _vt(q) + ", " + _vt(r) + "])", "str of a polygon shows the vertices")
    check(str(Polygon2D([p])) == "([" + _vt(p) + "])", "str of a single-point polygon")


def polygon_many(x: Real, y: Real):
    ps = [Vector2D(x + i, y - i) for i in range(12)]
    check(str(Polygon2D(ps)) == "([" + ", ".join([_vt(p) for p in ps]) + "])", "str of a polygon of twelve vertices shows them all")


def matrix(a: Real, b: Real, c: Real, d: Real, x: Real, y: Real):
    m = Matrix2D(a, b, c, d, x, y)
    check(str(m) == "[" + str(a) + ", " + str(b) + ", " + str(c) + ", " + str(d) + ", " + str(x) + ", " + str(y) + "]", "str of a matrix shows its six coefficients")


def hull(x: Real):
    for ps in ([Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(1.0, 3.0)], [Vector2D(0.0, 0.0), Vector2D(4.0, 0.5), Vector2D(1.0, 3.0), Vector2D(1.5, 1.0)]):
        h = ConvexHull(ps)
        h.compute()
        vs = "[" + ", ".join([_vt(v) for v in h.vertices()]) + "]"
        es = "[" + ", ".join(["[" + _vt(e.origin()) + "," + _vt(e.terminal()) + "]" for e in h.edges()]) + "]"
        check(str(h) == "(" + vs + " , " + es + ")", "str of a hull shows vertices and edges")


# to_str: the text is appended to the given one

def to_str_rect(x: Real, y: Real, a: Pos, b: Pos):
    r = Rect2D(x, y, a, b)
    check(r.to_str("draw ").split() == ["draw", "(rect", str(round(r.left(), 3)), str(round(r.top(), 3)), str(round(r.right(), 3)), str(round(r.bottom(), 3)) + ")"], "to_str of a rectangle appends its four sides")


def to_str_circle(x: Real, y: Real, a: Pos):
    c = Circle2D(Vector2D(x, y), a)
    check(c.to_str("draw ").split() == ["draw", "(circle", str(round(x, 3)), str(round(y, 3)), str(round(a, 3)) + ")"], "to_str of a circle appends centre and radius")


def to_str_segment(x: Real, y: Real, a: Real, b: Real):
    s = Segment2D(Vector2D(x, y), Vector2D(a, b))
    check(s.to_str("draw ").split() == ["draw", "(line", str(round(x, 3)), str(round(y, 3)), str(round(a, 3)), str(round(b, 3)) + ")"], "to_str of a segment appends its ends")


def to_str_triangle(x: Real, y: Real, a: Real, b: Real, c: Real, d: Real):
    t = Triangle2D(Vector2D(x, y), Vector2D(a, b), Vector2D(c, d))
    check(t.to_str("draw ").split() == ["draw", "(tri", str(round(x, 3)), str(round(y, 3)), str(round(a, 3)), str(round(b, 3)), str(round(c, 3)), str(round(d, 3)) + ")"], "to_str of a triangle appends its vertices")


def to_str_values(x: Int):
    check(Rect2D(1.0, 2.0, 3.0, 4.5).to_str("").split() == ["(rect", "1.0", "2.0", "4.0", "6.5)"], "to_str of a given rectangle")
    check(Circle2D(Vector2D(1.23456, -2.0), 0.1239).to_str("").split() == ["(circle", "1.235", "-2.0", "0.124)"], "to_str of a given circle")
    check(Segment2D(1.0, -2.0, 3.25, 4.5).to_str("").split() == ["(line", "1.0", "-2.0", "3.25", "4.5)"], "to_str of a given segment")
    check(Triangle2D(Vector2D(1.0, 2.0), Vector2D(3.0, 4.5), Vector2D(-5.0, 6.125)).to_str("").split() == ["(tri", "1.0", "2.0", "3.0", "4.5", "-5.0", "6.125)"], "to_str of a given triangle")


def values(x: Int):
    for o, t in ((Line2D(1.5, -2.0, 0.25), "(1.5 X + -2.0 Y + 0.25 = 0)"), (Line2D(1.5, -2.0, 0.0), "(1.5 X + -2.0 Y = 0)"),
                 (Ray2D(Vector2D(1.0, 2.0), AngleDeg(30.5)), "(1.0,2.0) dir : 30.5"),
                 (Segment2D(1.25, 2.0, -3.0, 0.0001), "[(1.25,2.0),(-3.0,0.0001)]"),
                 (Triangle2D(Vector2D(1.0, 2.0), Vector2D(3.0, 4.5), Vector2D(-5.0, 6.125)), "[(1.0,2.0),(3.0,4.5),(-5.0,6.125)]"),
                 (Size2D(1.2345, 100.0), "[len:1.2345,wid:100.0]"), (Rect2D(1.0, 2.0, 3.0, 4.5678), "[topleft:(1.0,2.0),len:3.0,wid:4.5678]"),
                 (Circle2D(Vector2D(1.23456, -2.0), 0.1239), "((1.23456,-2.0) , 0.1239)"),
                 (Polygon2D([Vector2D(1.0, 2.0), Vector2D(3.0, 4.0)]), "([(1.0,2.0), (3.0,4.0)])"),
                 (Matrix2D(1.0, 2.0, 3.0, 4.0, 5.0, 6.7891), "[1.0, 2.0, 3.0, 4.0, 5.0, 6.7891]")):
        check(str(o) == t, "str of a given object")
        check(repr(o) == t, "repr of a given object")


def invalid_vector(x: Real, y: Real):
    v = Vector2D(x, y)
    t = str(v)
    v.invalidate()
    check(str(v) == t and repr(v) == t, "an invalid vector shows its components")


def invalid_figures():
    t = Triangle2D(Vector2D(1.0, 2.0), Vector2D(1.0, 2.0), Vector2D(3.0, 4.5))
    check(str(t) == "[(1.0,2.0),(1.0,2.0),(3.0,4.5)]", "a degenerate triangle shows its corners")
    check(str(Segment2D(1.0, 2.0, 1.0, 2.0)) == "[(1.0,2.0),(1.0,2.0)]", "a segment without length shows its ends")
    check(str(Size2D(0.0, 0.0)) == "[len:0.0,wid:0.0]", "an empty size shows its measures")
    check(str(Rect2D(1.0, 2.0, 0.0, 0.0)) == "[topleft:(1.0,2.0),len:0.0,wid:0.0]", "an empty rectangle shows its measures")
    check(str(Circle2D(Vector2D(1.0, 2.0), 0.0)) == "((1.0,2.0) , 0.0)", "a circle without radius shows its components")


def changed(x: Real, y: Real):
    """the text follows every change"""
    v = Vector2D(3.0, 4.0)
    a = AngleDeg(20.0)
    s = Segment2D(1.0, 2.0, 3.0, 4.0)
    str(v), str(a), str(s)
    v.assign(x, y)
    check(str(v) == str(Vector2D(x, y)), "the text of a changed vector")
    s.terminal_().assign(x, y)
    check(str(s) == str(Segment2D(Vector2D(1.0, 2.0), Vector2D(x, y))), "the text of a changed segment")
    a += 25.5
    check(str(a) == "45.5", "the text of a changed angle")
