BUGS = []


def bug(id, property, edits, needs, breaks, demo, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


bug("angle-fmod", "C01",
    [("angle_deg.py", "            self._degree = math.fmod(self._degree, 360.0)",
      "            self._degree = math.fmod(self._degree, 720.0)")],
    "an angle constructed or summed to between 1.5 and 2 turns", "degrees outside [-180, 180]",
    """
from pyrusgeom.angle_deg import AngleDeg
d = AngleDeg(600.0).degree_()
assert -180.0 <= d <= 180.0, d
""")
bug("angle-within", "C03",
    [("angle_deg.py", "        diff = angle.degree() - self._degree\n", "        diff = angle.degree() - self._degree\n        if diff == -180.0:\n            return True\n")],
    "exactly opposite directions, the second one larger", "is_left_equal_of opposite angles depends on the wrap",
    """
from pyrusgeom.angle_deg import AngleDeg
assert AngleDeg(90.0).is_left_equal_of(AngleDeg(-90.0)) == AngleDeg(-90.0).is_left_equal_of(AngleDeg(90.0))
""")
bug("segment-vertical", "C16",
    [("segment_2d.py", "        if self._origin.x() == self._terminal.x():\n", "        if abs(self._origin.x() - self._terminal.x()) < 1.0:\n")],
    "a horizontal segment shorter than 1 and a point beyond its end", "on_segment accepts points beyond the ends",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.segment_2d import Segment2D
s = Segment2D(Vector2D(1.0, 1.0), Vector2D(1.5, 1.0))
assert not s.on_segment(Vector2D(4.0, 1.0))
""")
bug("nearest-short", "C15",
    [("segment_2d.py", "        if len_square == 0.0:\n", "        if len_square < 1.0:\n")],
    "a segment shorter than 1", "nearest_point is the origin although another point is nearer",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.segment_2d import Segment2D
s = Segment2D(Vector2D(0.0, 0.0), Vector2D(0.5, 0.0))
assert abs(s.nearest_point(Vector2D(5.0, 3.0)).x() - 0.5) < 1e-9
""")
bug("line-bisector", "C13",
    [("line_2d.py", "        if (math.fabs(point2.x() - point1.x()) < EPSILON and\n                math.fabs(point2.y() - point1.y()) < EPSILON):",
      "        if math.fabs((point2.x() - point1.x()) - (point2.y() - point1.y())) < EPSILON:")],
    "points on a common diagonal", "the perpendicular bisector of points on a diagonal is wrong",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.line_2d import Line2D
l = Line2D.perpendicular_bisector(Vector2D(1.0, 2.0), Vector2D(5.0, 6.0))
assert abs(l.a() * 3.0 + l.b() * 4.0 + l.c()) < 1e-9
""")
P = "from pyrusgeom.geom_2d import *\n"
bug("angle-scale-mod", "C02",
    [("angle_deg.py", "        self._degree *= other\n", "        self._degree *= math.fmod(other, 360.0)\n")],
    "an in-place product with a factor above 360 and a fractional degree", "scaling in place is off by a fraction of a turn",
    P + """
a = AngleDeg(0.5)
a *= 361.0
assert abs((a.degree() - 180.5 + 180.0) % 360.0 - 180.0) < 1e-6, a
""")
bug("asin-clamp", "C04",
    [("angle_deg.py", "        elif sine <= -1.0:\n", "        elif sine <= -1.0 - EPSILON:\n")],
    "a sine just below -1, as rounding produces", "asin_deg raises instead of clamping",
    P + """
assert AngleDeg.asin_deg(-1.0000000001) == -90.0
""")
bug("vector-times-one", "C05",
    [("vector_2d.py", "        return Vector2D(self._x * other, self._y * other)\n",
      "        if other == 1.0:\n            return self\n        return Vector2D(self._x * other, self._y * other)\n")],
    "a product with exactly 1 whose result is changed later", "the product is the operand itself",
    P + """
v = Vector2D(1.0, 2.0)
w = v * 1.0
w.add(1.0, 1.0)
assert v == Vector2D(1.0, 2.0), v
""")
bug("dist-vertical", "C06",
    [("vector_2d.py", "        return math.sqrt(self.dist2(other))\n",
      "        if self._x == other.x():\n            return other.y() - self._y\n        return math.sqrt(self.dist2(other))\n")],
    "two points on a vertical line, the first one above", "the distance is negative",
    P + """
assert Vector2D(1.0, 5.0).dist(Vector2D(1.0, 2.0)) == 3.0
""")
bug("bisect-mutates", "C07",
    [("angle_deg.py", "        result = AngleDeg(left)\n", "        result = left if isinstance(left, AngleDeg) else AngleDeg(left)\n")],
    "bisect called with an angle object that is used again", "bisect turns its left argument",
    P + """
a = AngleDeg(20.0)
AngleDeg.bisect(a, AngleDeg(60.0))
assert a.degree() == 20.0, a
""")
bug("sector-shares-angle", "C08",
    [("sector_2d.py", "        self._max_r = max(self._min_r, max_r)\n        self._start = AngleDeg(start)\n        self._end = AngleDeg(end)\n\n    def center(",
      "        self._max_r = max(self._min_r, max_r)\n        self._start = start if isinstance(start, AngleDeg) else AngleDeg(start)\n        self._end = AngleDeg(end)\n\n    def center(")],
    "a sector reassigned with an angle object that is changed later", "the sector turns with the caller's angle",
    P + """
from pyrusgeom.sector_2d import Sector2D
a = AngleDeg(10.0)
s = Sector2D(Vector2D(0, 0), 1.0, 2.0, 0.0, 90.0)
s.assign(Vector2D(0, 0), 1.0, 2.0, a, 50.0)
a += 30.0
assert s.angle_left_start().degree() == 10.0
""")
bug("distance-memo", "C09",
    [("soccer_math.py", "    return initial_speed * (1.0 - math.pow(decay, n_step)) / (1.0 - decay)\n",
      "    key = (initial_speed, n_step)\n    if key not in _TRAVEL:\n        _TRAVEL[key] = initial_speed * (1.0 - math.pow(decay, n_step)) / (1.0 - decay)\n    return _TRAVEL[key]\n"),
     ("soccer_math.py", "SERVER_EPS = 1.0e-10\n", "SERVER_EPS = 1.0e-10\n_TRAVEL = {}\n")],
    "two calls with the same speed and step count but another decay", "the answer for the first decay is given again",
    """
from pyrusgeom.soccer_math import inertia_n_step_distance
a = inertia_n_step_distance(2.0, 3, 0.5)
b = inertia_n_step_distance(2.0, 3, 0.9)
assert abs(a - 3.5) < 1e-9 and abs(b - 5.42) < 1e-9, (a, b)
""")
bug("hash-kept", "C10",
    [("vector_2d.py", "            return hash((self._x, self._y))\n",
      "            if getattr(self, '_hash', None) is None:\n                self._hash = hash((self._x, self._y))\n            return self._hash\n")],
    "a vector hashed, changed and compared with an equal one", "equal vectors with different hashes",
    P + """
v = Vector2D(1.0, 2.0)
hash(v)
v.add(1.0, 1.0)
assert v == Vector2D(2.0, 3.0) and hash(v) == hash(Vector2D(2.0, 3.0))
""")
bug("size-eq-area", "C10",
    [("size_2d.py", "            math.fabs(self._width - other.width()) < EPSILON)\n",
      "            math.fabs(self._length * self._width - other.length() * other.width()) < EPSILON)\n")],
    "two sizes of length zero", "sizes with different widths are equal",
    """
from pyrusgeom.size_2d import Size2D
assert not Size2D(0.0, 2.0) == Size2D(0.0, 5.0)
""")
bug("set-vector-valid", "C11",
    [("vector_2d.py", "        self._is_valid = other.is_valid()\n", "        self._is_valid = self._is_valid and other.is_valid()\n")],
    "an invalid vector that is set from a valid one", "it stays invalid",
    P + """
v = Vector2D.invalid()
v.set_vector(Vector2D(1.0, 2.0))
assert v.is_valid()
""")
bug("line-behind-ray", "C14",
    [("ray_2d.py", "            if not self.in_right_dir(tmp_sol) or not other.in_right_dir(tmp_sol):\n",
      "            if not self.in_right_dir(tmp_sol) and not other.in_right_dir(tmp_sol):\n")],
    "two rays whose lines meet behind only one of them", "the ray intersection is a point behind one of the rays",
    P + """
r = Ray2D(Vector2D(0.0, 0.0), AngleDeg(0.0))
q = Ray2D(Vector2D(5.0, 1.0), AngleDeg(90.0))
assert not r.intersection(q).is_valid()
""")
bug("triangle-edge-cw", "C17",
    [("triangle_2d.py", "                               outer2 <= 0.0 and outer3 <= 0.0):\n            return True\n        return False\n\n    def __repr__",
      "                               outer2 <= 0.0 and outer3 < 0.0):\n            return True\n        return False\n\n    def __repr__")],
    "a clockwise triangle and a point on its last edge", "points on one edge are outside",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.triangle_2d import Triangle2D
assert Triangle2D.tri_contains(Vector2D(0, 0), Vector2D(0, 4), Vector2D(4, 0), Vector2D(2, 0))
""")
bug("circumcenter-small", "C18",
    [("triangle_2d.py", "        if math.fabs(tmp) < 1.0e-10:", "        if math.fabs(tmp) < 1.0e-1:")],
    "a triangle of area below 0.05", "no circumcenter for a proper triangle",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.triangle_2d import Triangle2D
c = Triangle2D.tri_circumcenter(Vector2D(0, 0), Vector2D(0.25, 0), Vector2D(0, 0.25))
assert c.is_valid() and abs(c.x() - 0.125) < 1e-9
""")
bug("rect-set-bottom", "C20",
    [("rect_2d.py", "        new_top = min(self.top(), bottom_y)\n        new_bottom = max(self.top(), bottom_y)\n\n        self._top_left.set_y(new_top)\n",
      "        new_top = min(self.top(), bottom_y)\n        new_bottom = max(self.bottom(), bottom_y)\n\n        self._top_left.set_y(new_top)\n")],
    "a bottom edge moved up but not above the top", "the bottom edge is not moved",
    """
from pyrusgeom.rect_2d import Rect2D
r = Rect2D(0.0, 0.0, 4.0, 6.0)
r.set_bottom(2.0)
assert r.bottom() == 2.0, r
""")
bug("rect-second-crossing", "C21",
    [("rect_2d.py", "            if n_sol < 2:\n                t_sol[n_sol] = self.top_edge()", "            if n_sol < 1:\n                t_sol[n_sol] = self.top_edge()")],
    "a line through the left or right edge and the top edge", "one of two crossings is missed",
    P + """
from pyrusgeom.rect_2d import Rect2D
r = Rect2D(0.0, 0.0, 4.0, 4.0)
assert len(r.intersection(Line2D(Vector2D(0.0, 2.0), Vector2D(2.0, 0.0)))) == 2
""")
bug("circle-ray-away", "C23",
    [("circle_2d.py", "                del sol_list[1]\n\n            if len(sol_list) > 0 and not other.in_right_dir(",
      "                del sol_list[1]\n\n            elif len(sol_list) > 0 and not other.in_right_dir(")],
    "a ray pointing away from the circle", "a point behind the ray is returned",
    P + """
from pyrusgeom.circle_2d import Circle2D
c = Circle2D(Vector2D(0.0, 0.0), 1.0)
assert c.intersection(Ray2D(Vector2D(5.0, 0.0), AngleDeg(0.0))) == []
""")
bug("sector-arc", "C24",
    [("sector_2d.py", "            div += 360.0\n        return (2.0 * self._max_r * PI) * (div / 360.0)", "            div = -div\n        return (2.0 * self._max_r * PI) * (div / 360.0)")],
    "a sector sweeping more than half a turn", "the outer arc is that of the complement",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.sector_2d import Sector2D
s = Sector2D(Vector2D(0, 0), 1.0, 2.0, 90.0, 0.0)
assert abs(s.get_circumference_max() - 2.0 * s.get_circumference_min()) < 1e-9
""")
bug("polygon-last-edge", "C25",
    [("polygon_2d.py", "        if size >= 3:\n", "        if size > 3:\n")],
    "a triangle and a point nearest to its closing edge", "the distance ignores the closing edge",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.polygon_2d import Polygon2D
p = Polygon2D([Vector2D(0, 0), Vector2D(4, 4), Vector2D(0, 4)])
assert abs(p.dist(Vector2D(-1, 2)) - 1.0) < 1e-9
""")
bug("polygon-vertex-level", "C26",
    [("polygon_2d.py", "                    if p_0.y() == p_1.y() or p_0.y() < point.y() or p_1.y() < point.y():\n",
      "                    if p_0.y() == p_1.y() or p_0.y() < point.y() and p_1.y() < point.y():\n")],
    "a point at the height of a vertex to its right", "the point is inside when outside and vice versa",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.polygon_2d import Polygon2D
p = Polygon2D([Vector2D(0, -3), Vector2D(3, 0), Vector2D(0, 3), Vector2D(-3, 0)])
assert p.contains(Vector2D(1, 0))
""")
bug("matrix-square", "C27",
    [("matrix_2d.py", "        tm22 = self._m21 * other.m12() + self._m22 * other.m22()\n        tdx = self._m11 * other.dxtf() + self._m12 * other.dytf() + self._dx\n        tdy = self._m21 * other.dxtf() + self._m22 * other.dytf() + self._dy\n",
      "        tm22 = self._m21 * other.m12() + self._m22 * other.m22()\n        tdx = self._m11 * other.dxtf() + self._m12 * other.dytf() + self._dx\n        self._dx = tdx\n        tdy = self._m21 * other.dxtf() + self._m22 * other.dytf() + self._dy\n")],
    "a matrix multiplied in place by itself", "its square has a wrong translation",
    """
from pyrusgeom.matrix_2d import Matrix2D
m = Matrix2D(1.0, 2.0, 3.0, 4.0, 5.0, 6.0)
m *= m
assert m.dytf() == 3.0 * 5.0 + 4.0 * 6.0 + 6.0, m
""")
bug("final-speed-sign", "C28",
    [("soccer_math.py", "    return (math.fabs(dash_power) * player_dash_power_rate * effort) / (1.0 - decay)\n",
      "    return max(0.0, dash_power * player_dash_power_rate * effort) / (1.0 - decay)\n")],
    "a negative dash power (dashing backwards)", "the final speed of a back dash is 0",
    """
from pyrusgeom.soccer_math import final_speed
assert abs(final_speed(-100.0, 0.006, 1.0, 0.4) - 1.0) < 1e-9
""")
bug("range-down-end", "C29",
    [("soccer_math.py", "        if step < 0 and start <= stop:\n", "        if step < 0 and start < stop:\n")],
    "a descending range that meets its stop exactly", "the stop is yielded",
    """
from pyrusgeom.soccer_math import f_range
assert list(f_range(2.0, 0.0, -1.0)) == [2.0, 1.0]
""")
bug("quadratic-negative", "C30",
    [("circle_2d.py", "    if math.fabs(delta) < EPSILON:\n", "    if math.fabs(delta) < EPSILON * EPSILON:\n"),
     ("circle_2d.py", "    elif delta < 0.0:\n", "    elif delta < -EPSILON:\n")],
    "a line that touches the circle up to rounding from outside", "the root of a negative number is taken",
    """
from pyrusgeom.circle_2d import quadratic_f
quadratic_f(1.0, 2.0, 1.0 + 1e-8)
""")
bug("polar-negative", "C31",
    [("vector_2d.py", "        return Vector2D.from_polar(radius, direction)\n", "        return Vector2D.from_polar(max(radius, 0), direction)\n")],
    "a negative radius", "polar2vector and from_polar differ",
    P + """
assert Vector2D.polar2vector(-2.0, 0.0) == Vector2D.from_polar(-2.0, 0.0)
""")
bug("hull-later-points", "C32",
    [("convex_hull.py", "                for k in range(point_size):\n", "                for k in range(i, point_size):\n")],
    "a point set whose first points are inside the hull of the rest or order the pairs unfavourably",
    "the direct method lists edges with points on both sides",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.convex_hull import ConvexHull
h = ConvexHull([Vector2D(0, 0), Vector2D(4, 0), Vector2D(4, 4), Vector2D(0, 4)])
h.compute_direct_method()
assert len(h.edges()) == 4, h.edges()
""")
bug("triangle-merge", "C34",
    [("triangle_2d.py", "            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(\n",
      "            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON or math.fabs(\n")],
    "a horizontal or vertical line across the triangle", "two crossings are counted as one",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.line_2d import Line2D
from pyrusgeom.triangle_2d import Triangle2D
t = Triangle2D(Vector2D(0, 0), Vector2D(4, 0), Vector2D(2, 4))
assert t.intersection(Line2D(Vector2D(2.5, -1.0), Vector2D(2.5, 7.0)))[0] == 2
""")
bug("segment-length-kept", "C35",
    [("segment_2d.py", "        return self._origin.dist(self._terminal)\n",
      "        if getattr(self, '_len', None) is None:\n            self._len = self._origin.dist(self._terminal)\n        return self._len\n")],
    "a segment measured, then changed through origin_() or assign", "the old length is reported",
    """
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.segment_2d import Segment2D
s = Segment2D(Vector2D(0, 0), Vector2D(3, 4))
assert s.length() == 5.0
s.origin_().assign(3, 0)
assert s.length() == 4.0
""")

# --- second round -----------------------------------------------------------------------------------------------
bug("line-steep", "C12",
    [("line_2d.py", "        if math.fabs(self._b) < EPSILON:\n", "        if math.fabs(self._b) < math.fabs(self._a) * 0.01:\n")],
    "a nearly vertical line", "get_y gives the error value although the line has a point there",
    P + """
assert abs(Line2D(Vector2D(0.0, 0.0), Vector2D(0.001, 1.0)).get_y(0.001) - 1.0) < 1e-9
""")
bug("rect-corners-mixed", "C19",
    [("rect_2d.py", """                                bottom_right.y() - top_left.y())
            if bottom_right.x() - top_left.x() < 0.0:
                self._top_left.set_x(bottom_right.x())

            if bottom_right.y() - top_left.y() < 0.0:
                self._top_left.set_y(bottom_right.y())
        elif len(args) == 2:
            self._top_left = Vector2D(args[0])
            self._size = Size2D(args[1].length(), args[1].width())
        elif""", """                                bottom_right.y() - top_left.y())
            if bottom_right.x() - top_left.x() < 0.0:
                self._top_left.set_x(bottom_right.x())

            elif bottom_right.y() - top_left.y() < 0.0:
                self._top_left.set_y(bottom_right.y())
        elif len(args) == 2:
            self._top_left = Vector2D(args[0])
            self._size = Size2D(args[1].length(), args[1].width())
        elif""")],
    "a rectangle reassigned from a bottom right and a top left corner", "the rectangle lies below the given corners",
    P + """
from pyrusgeom.rect_2d import Rect2D
r = Rect2D(0, 0, 1, 1).assign(Vector2D(5, 5), Vector2D(1, 2))
assert r.top() == 2, r
""")
bug("circle-assign-same", "C22",
    [("circle_2d.py", "        self._center = Vector2D(center)\n        self._radius = radius\n        if radius < 0.0:\n",
      "        if center == self._center:\n            self._radius = max(self._radius, radius)\n            return\n        self._center = Vector2D(center)\n        self._radius = radius\n        if radius < 0.0:\n")],
    "a circle reassigned with its own centre and a smaller radius", "the radius stays",
    P + """
from pyrusgeom.circle_2d import Circle2D
c = Circle2D(Vector2D(1, 1), 5.0)
c.assign(Vector2D(1, 1), 2.0)
assert c.radius() == 2.0
""")
bug("div-int", "C33",
    [("vector_2d.py", "        return Vector2D(self._x / other, self._y / other)\n",
      "        if isinstance(other, int) and self._x % other == 0:\n            return Vector2D(self._x // other, self._y // other)\n        return Vector2D(self._x / other, self._y / other)\n")],
    "a vector divided by an int that divides its first coordinate only", "the second coordinate is floored",
    P + """
assert (Vector2D(4.0, 5.0) / 2).y() == (Vector2D(4.0, 5.0) / 2.0).y()
""", also=["C05"])
bug("ray-int-dir", "C33",
    [("ray_2d.py", "            self._direction = AngleDeg(direction)\n", "            self._direction = AngleDeg(direction) if not isinstance(direction, int) else AngleDeg(direction % 180)\n")],
    "a ray with an int direction outside [0, 180)", "the ray points elsewhere",
    P + """
from pyrusgeom.ray_2d import Ray2D
assert Ray2D(Vector2D(0, 0), 270).dir() == Ray2D(Vector2D(0, 0), 270.0).dir()
""", also=["C14"])
bug("invalid-shared", "C11",
    [("vector_2d.py", "        vec_invalid = Vector2D()\n        vec_invalid.invalidate()\n        return vec_invalid\n",
      "        if not hasattr(Vector2D, '_INVALID'):\n            Vector2D._INVALID = Vector2D()\n            Vector2D._INVALID.invalidate()\n        return Vector2D._INVALID\n")],
    "an invalid result that the caller validates or changes, then another invalid result", "later failures are reported as valid points",
    P + """
v = Vector2D.invalid()
v.validate()
assert not Vector2D.invalid().is_valid()
""", also=["C08", "C09"])
bug("centroid-cached", "C09",
    [("triangle_2d.py", "        return (v_a + v_b + v_c) / 3.0\n",
      "        key = (v_a, v_b, v_c)\n        if key not in _CENTROIDS:\n            _CENTROIDS[key] = (v_a + v_b + v_c) / 3.0\n        return _CENTROIDS[key]\n"),
     ("triangle_2d.py", "\n\nclass Triangle2D(Region2D):", "\n_CENTROIDS = {}\n\n\nclass Triangle2D(Region2D):")],
    "the centroid of one triangle asked twice with the first answer changed in between", "the changed answer is given again",
    P + """
from pyrusgeom.triangle_2d import Triangle2D
a, b, c = Vector2D(0, 0), Vector2D(3, 0), Vector2D(0, 3)
Triangle2D.tri_centroid(a, b, c).add(1.0, 1.0)
assert Triangle2D.tri_centroid(a, b, c) == Vector2D(1, 1)
""", also=["C08"])
bug("polygon-box-kept", "C35",
    [("polygon_2d.py", "        x_min = float(\"inf\")\n", "        if getattr(self, '_box', (0, None))[0] == len(self._vertices):\n            return Rect2D(self._box[1])\n        x_min = float(\"inf\")\n"),
     ("polygon_2d.py", "        return Rect2D(Vector2D(x_min, y_min), Size2D(x_max - x_min, y_max - y_min))\n",
      "        self._box = (len(self._vertices),\n                     Rect2D(Vector2D(x_min, y_min), Size2D(x_max - x_min, y_max - y_min)))\n        return Rect2D(self._box[1])\n")],
    "a polygon reassigned with as many vertices after a query", "bounding box and containment of the old polygon",
    P + """
from pyrusgeom.polygon_2d import Polygon2D
p = Polygon2D([Vector2D(0, 0), Vector2D(1, 0), Vector2D(0, 1)])
p.get_bounding_box()
p.assign([Vector2D(5, 5), Vector2D(6, 5), Vector2D(5, 6)])
assert p.get_bounding_box().left() == 5
""")
bug("hull-polygon-closes", "C07",
    [("convex_hull.py", "        return Polygon2D(self._vertices)\n",
      "        points = self._vertices\n        if len(points) > 1 and points[0] == points[-1]:\n            points.pop()\n        points.sort(key=lambda p: (p.x(), p.y())) if len(points) == 3 else None\n        return Polygon2D(points)\n")],
    "a hull that is a triangle, asked for its polygon before its vertices", "to_polygon reorders the hull's vertices",
    P + """
from pyrusgeom.convex_hull import ConvexHull
h = ConvexHull([Vector2D(0, 0), Vector2D(4, 0), Vector2D(1, 3)])
h.compute()
v = h.vertices()
h.to_polygon()
assert h.vertices() == v
""")
bug("sector-full", "C24",
    [("sector_2d.py", "        return (self._min_r * self._min_r <= delta", "        return (self._min_r * self._min_r < delta")],
    "a point exactly at the inner radius", "a point of the sector is not contained",
    P + """
from pyrusgeom.sector_2d import Sector2D
assert Sector2D(Vector2D(0, 0), 0.0, 2.0, -90.0, 90.0).contains(Vector2D(0, 0))
""")
bug("matrix-near-singular", "C27",
    [("matrix_2d.py", "        return math.fabs(self.det()) > EPSILON\n", "        return self.det() > EPSILON\n")],
    "a matrix that mirrors", "an invertible matrix is reported singular",
    P + """
from pyrusgeom.matrix_2d import Matrix2D
assert Matrix2D.make_scaling(-1.0, 1.0).invertible()
""")
bug("rotate-quarter", "C06",
    [("vector_2d.py", "        cos_tmp = math.cos(deg * DEG2RAD)\n", "        if deg == 90.0:\n            self._x, self._y = -self._y, self._x\n            return self\n        if deg == -90.0:\n            self._x = self._y\n            self._y = -self._x\n            return self\n        cos_tmp = math.cos(deg * DEG2RAD)\n")],
    "a rotation by exactly -90 degrees", "the coordinates are wrong",
    P + """
v = Vector2D(1.0, 0.0).rotate(-90.0)
assert abs(v.y() + 1.0) < 1e-9 and abs(v.x()) < 1e-9, v
""")
bug("isub-self", "C02",
    [("angle_deg.py", "        if isinstance(other, AngleDeg):\n            other = other.degree()\n        self._degree -= other\n",
      "        if isinstance(other, AngleDeg):\n            if other.abs() > 90.0:\n                self._degree += 180.0\n                other.reverse()\n            other = other.degree()\n        self._degree -= other\n")],
    "an angle of more than 90 degrees subtracted in place, the operand used again", "the operand is turned around",
    P + """
a = AngleDeg(120.0); b = AngleDeg(100.0)
b -= a
assert a.degree() == 120.0
""", also=["C07"])
bug("farthest-manhattan", "C15",
    [("segment_2d.py", "        return math.sqrt(max(self._origin.dist2(point), self._terminal.dist2(point)))\n",
      "        if (self._origin - point).abs_x() + (self._origin - point).abs_y() > \\\n                (self._terminal - point).abs_x() + (self._terminal - point).abs_y():\n            return self._origin.dist(point)\n        return self._terminal.dist(point)\n")],
    "ends whose order by Manhattan and Euclidean distance differs", "the nearer end is taken",
    P + """
from pyrusgeom.segment_2d import Segment2D
assert Segment2D(Vector2D(5, 0), Vector2D(3, 3)).farthest_dist(Vector2D(0, 0)) == 5.0
""")
bug("contains-mixed", "C17",
    [("triangle_2d.py", "        return Triangle2D.tri_ccw(self._a, self._b, self._c)\n",
      "        return (self._b.x() - self._a.x()) * (self._c.y() - self._b.y()) > (self._b.y() - self._a.y()) * (self._c.x() - self._a.x())\n")],
    "corners for which the two cross products differ in sign", "ccw answers wrongly",
    P + """
from pyrusgeom.triangle_2d import Triangle2D
import random
random.seed(1)
for _ in range(2000):
    p = [Vector2D(random.uniform(-9, 9), random.uniform(-9, 9)) for _ in range(3)]
    assert Triangle2D(*p).ccw() == Triangle2D.tri_ccw(*p), p
""")

# --- third round ------------------------------------------------------------------------------------------------
from_all = P + """
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.polygon_2d import Polygon2D, XLessEqual
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.convex_hull import ConvexHull, MethodType
from pyrusgeom import soccer_math
"""
bug("within-point", "C03",
    [("angle_deg.py", "        if left.is_left_equal_of(right):\n", "        if left == right:\n            return True\n        if left.is_left_equal_of(right):\n")],
    "both bounds equal and another direction", "an empty range contains every direction",
    from_all + """
assert not AngleDeg(90.0).is_within(AngleDeg(10.0), AngleDeg(10.0))
""")
bug("set-length-zero", "C06",
    [("vector_2d.py", "        if mag > EPSILON:\n", "        if mag > EPSILON and length:\n")],
    "a vector whose length is set to 0", "the vector keeps its length",
    from_all + """
v = Vector2D(3.0, 4.0)
v.set_length(0.0)
assert v.r() == 0.0
""")
bug("rect-size-alias", "C08",
    [("rect_2d.py", "            self._size = args[0].size()\n            self._is_valid = args[0].is_valid()\n", "            self._size = args[0].size_()\n            self._is_valid = args[0].is_valid()\n")],
    "a copied rectangle of which one is resized", "both change",
    from_all + """
r = Rect2D(0, 0, 10, 10)
s = Rect2D(r)
s.set_length(3.0)
assert r.size().length() == 10
""")
bug("circle-default-center", "C09",
    [("circle_2d.py", "        self._center: Vector2D = Vector2D(center)\n", "        self._center: Vector2D = center if radius == 0.0 else Vector2D(center)\n")],
    "a default circle moved through its centre, then another default circle", "the second one is not at the origin",
    from_all + """
Circle2D().center_().assign(3.0, 3.0)
assert Circle2D().center() == Vector2D(0, 0)
""", also=["C08"])
bug("ray-eq-dir", "C10",
    [("ray_2d.py", "self._direction - other.dir_()) < EPSILON", "self._direction - other.dir_()) % 180.0 < EPSILON")],
    "two rays from one origin in opposite directions", "they compare equal",
    from_all + """
assert not Ray2D(Vector2D(0, 0), AngleDeg(180.0)) == Ray2D(Vector2D(0, 0), AngleDeg(0.0))
assert not Ray2D(Vector2D(0, 0), AngleDeg(90.0)) == Ray2D(Vector2D(0, 0), AngleDeg(-90.0))
""")
bug("size-valid-any", "C11",
    [("size_2d.py", "        return self._length > 0.0 and self._width > 0.0\n", "        return self._length + self._width > 0.0\n")],
    "a size with one zero side", "a degenerate size is valid",
    from_all + """
assert not Size2D(0.0, 3.0).is_valid()
assert not Rect2D(0.0, 0.0, 0.0, 3.0).is_valid()
""")
bug("ray-other-behind", "C14",
    [("ray_2d.py", "            if not self.in_right_dir(tmp_sol) or not other.in_right_dir(tmp_sol):\n", "            if not self.in_right_dir(tmp_sol) or other.in_right_dir(tmp_sol, -10.0):\n")],
    "two rays whose lines cross behind the second", "a point that is not on the second ray",
    from_all + """
assert not Ray2D(Vector2D(0, 0), AngleDeg(0.0)).intersection(Ray2D(Vector2D(5, 5), AngleDeg(90.0))).is_valid()
""")
bug("segment-polar-negative", "C15",
    [("segment_2d.py", "        # self.__init__(args)\n        self._origin: Vector2D = Vector2D(0, 0)\n        self._terminal: Vector2D = Vector2D(0, 0)\n",
      "        # self.__init__(args)\n        if len(args) == 3 and args[1] < 0.0:\n            self._terminal = Vector2D(args[0])\n            self._origin = self._terminal + Vector2D.from_polar(args[1], args[2])\n            return\n        self._origin: Vector2D = Vector2D(0, 0)\n        self._terminal: Vector2D = Vector2D(0, 0)\n")],
    "a segment reassigned with a negative length", "the ends are exchanged",
    from_all + """
s = Segment2D(Vector2D(0, 0), Vector2D(1, 1))
s.assign(Vector2D(1, 2), -2.0, AngleDeg(0.0))
assert s.origin() == Vector2D(1, 2)
""")
bug("move-center-swap", "C20",
    [("rect_2d.py", "                              * 0.5, point.y() - self._size.width() * 0.5)\n", "                              * 0.5, point.y() - min(self._size.width(), self._size.length()) * 0.5)\n")],
    "a rectangle higher than long whose centre is moved", "its centre is elsewhere",
    from_all + """
r = Rect2D(0, 0, 2, 8)
r.move_center(Vector2D(5, 5))
assert r.center() == Vector2D(5, 5)
""")
bug("intersected-touch", "C21",
    [("rect_2d.py", "        if width <= 0.0 or length <= 0.0:\n", "        if width * length <= 0.0:\n")],
    "two rectangles apart in both directions", "their intersection is a rectangle between them",
    from_all + """
assert Rect2D(0, 0, 1, 1).intersected(Rect2D(5, 5, 1, 1)).area() == 0
""")
bug("polygon-dist-early", "C25",
    [("polygon_2d.py", "        if size >= 3:\n            seg = Segment2D(", "        if size >= 3 and min_dist > (self._vertices[0] - point).r() * 0.5:\n            seg = Segment2D(")],
    "a point near the closing edge, the other edges closer than half its distance to the first vertex", "the closing edge is left out",
    from_all + """
p = Polygon2D([Vector2D(0, 0), Vector2D(100, 10), Vector2D(100, 0)])
d = p.dist(Vector2D(90, -1), False)
assert abs(d - 1.0) < 1e-9, d
""")
bug("polygon-left-vertex", "C26",
    [("polygon_2d.py", "                    if p_0.y() == p_1.y() or p_0.y() < point.y() or p_1.y() < point.y():\n", "                    if p_0.y() == p_1.y() or p_0.y() < point.y():\n")],
    "a point at the height of a vertex to its right", "containment is wrong",
    from_all + """
p = Polygon2D([Vector2D(0, 0), Vector2D(4, 2), Vector2D(0, 4)])
assert p.contains(Vector2D(1, 2))
p = Polygon2D([Vector2D(0, 4), Vector2D(4, 2), Vector2D(0, 0)])
assert p.contains(Vector2D(1, 2))
""")
bug("inverted-translation", "C27",
    [("matrix_2d.py", "        if determinant == 0.0:  # not invertible\n            return Matrix2D()  # default matrix\n", "        if determinant == 0.0:\n            return Matrix2D()\n        if determinant == 1.0:\n            return Matrix2D(self._m11, self._m21, self._m12, self._m22, -self._dx, -self._dy)\n")],
    "a matrix of determinant 1 that is no pure translation", "the inverse does not undo it",
    from_all + """
m = Matrix2D(1.0, 2.0, 0.0, 1.0, 0.0, 0.0)
v = m.inverted().transform(m.transform(Vector2D(1.0, 1.0)))
assert v == Vector2D(1.0, 1.0), v
""")
bug("travel-zero-step", "C28",
    [("soccer_math.py", "           ((1.0 - math.pow(decay, n_step)) / (1.0 - decay)))\n\n\ndef inertia_n_step_point",
      "           ((1.0 - math.pow(decay, max(1, n_step))) / (1.0 - decay)))\n\n\ndef inertia_n_step_point")],
    "zero steps", "an object travels in no time",
    from_all + """
assert soccer_math.inertia_n_step_travel(Vector2D(1.0, 0.0), 0, 0.94).r() == 0.0
""")
bug("rint-negative", "C29",
    [("soccer_math.py", "    if fi_left_diff < fi_right_diff:\n", "    if fi_left_diff < fi_right_diff and floating_point > -1.0:\n")],
    "a number below -1 nearer to the integer below", "it is rounded the wrong way",
    from_all + """
assert soccer_math.r_int(-3.7) == -4
""")
bug("hull-added-point", "C35",
    [("convex_hull.py", "        if m_type == MethodType.DIRECT_METHOD:\n", "        if len(self._vertices) == len(self._input_points) - 1 and self._edges:\n            return\n        if m_type == MethodType.DIRECT_METHOD:\n")],
    "a point added after a first computation in which every point was a vertex", "the hull is not computed again",
    from_all + """
h = ConvexHull([Vector2D(0, 0), Vector2D(4, 0), Vector2D(1, 3)])
h.compute()
h.add_point(Vector2D(6, 6))
h.compute()
assert len(h.vertices()) == 4
""", also=["C35"])
bug("triangle-ray-order", "C34",
    [("triangle_2d.py", "                n_sol[1] = n_sol[2]\n                n_sol[0] -= 1\n\n            return n_sol\n\n        if isinstance(other, Segment2D)", "                n_sol[0] -= 1\n\n            return n_sol\n\n        if isinstance(other, Segment2D)")],
    "a ray that starts inside and leaves through the second edge found", "the point behind the ray is returned",
    from_all + """
t = Triangle2D(Vector2D(0, 0), Vector2D(4, 0), Vector2D(2, 4))
for d in range(0, 360, 15):
    r = t.intersection(Ray2D(Vector2D(2.0, 1.0), AngleDeg(float(d) + 1.0)))
    assert r[0] == 1 and (r[1] - Vector2D(2.0, 1.0)).th().is_within(AngleDeg(d + 0.9), AngleDeg(d + 1.1)), (d, r)
""")
bug("orthocenter-right", "C18",
    [("triangle_2d.py", "        perpend_a = Line2D(v_b, v_c).perpendicular(v_a)\n", "        if (v_b - v_a).inner_product(v_c - v_b) == 0.0:\n            return Vector2D(v_a)\n        perpend_a = Line2D(v_b, v_c).perpendicular(v_a)\n")],
    "a triangle with a right angle at its second corner", "the orthocenter is the wrong corner",
    from_all + """
o = Triangle2D.tri_orthocenter(Vector2D(0, 0), Vector2D(4, 0), Vector2D(4, 3))
assert o.dist(Vector2D(4, 0)) < 1e-9, o
""")
bug("alias-max-y", "C31",
    [("rect_2d.py", "        self.move_bottom(bottom_y)\n", "        self.move_top(bottom_y - max(self._size.length(), self._size.width()))\n")],
    "move_max_y of a rectangle longer than wide", "the bottom is not at the given position",
    from_all + """
r = Rect2D(0, 0, 5, 2); s = Rect2D(0, 0, 5, 2)
r.move_max_y(9.0); s.move_bottom(9.0)
assert r.top() == s.top()
""", also=["C20"])
bug("circle-coincident", "C30",
    [("circle_2d.py", "                if math.fabs(other.b()) < EPSILON:\n                    return []\n", "                if math.fabs(other.b()) < EPSILON and math.fabs(other.c()) > 0.0:\n                    return []\n")],
    "two equal circles", "division by zero",
    from_all + """
assert Circle2D(Vector2D(1, 1), 2.0).intersection(Circle2D(Vector2D(1, 1), 2.0)) == []
""")
bug("contains-reverses", "C07",
    [("polygon_2d.py", "        bounding_box = self.get_bounding_box()\n", "        if self.is_clockwise():\n            self._vertices.reverse()\n        bounding_box = self.get_bounding_box()\n")],
    "a containment query on a clockwise polygon", "asking turns the polygon round",
    from_all + """
g = Polygon2D([Vector2D(0, 0), Vector2D(0, 4), Vector2D(4, 0)])
a = g.double_signed_area()
g.contains(Vector2D(1, 1))
assert g.double_signed_area() == a
""")
bug("rect-isvalid-writes", "C07",
    [("rect_2d.py", "        self._is_valid = self._size.is_valid()\n        return self._is_valid", "        if not self._size.is_valid():\n            self._top_left.invalidate()\n        return self._size.is_valid()")],
    "asking an invalid rectangle whether it is valid", "its corner is wiped by the question",
    from_all + """
r = Rect2D(Vector2D(3, 4), Size2D(0.0, 2.0))
a = r.top_left_().is_valid()
r.is_valid()
assert r.top_left_().is_valid() == a
""")
bug("clip-drops-last", "C07",
    [("polygon_2d.py", "        points = self._vertices\n", "        points = self._vertices\n        if points[-1] == points[0] and len(points) > 3:\n            points.pop()\n")],
    "clipping a polygon whose last vertex repeats its first", "the clipped polygon loses a vertex",
    from_all + """
g = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4), Vector2D(0, 0)])
g.get_rectangle_clipped_polygon(Rect2D(0, 0, 2, 2))
assert len(g.vertices()) == 4
""")
bug("line-eq-abs-c", "C10",
    [("line_2d.py", "self._c == other.c()", "abs(self._c) == abs(other.c())")],
    "two lines on opposite sides of the origin", "different lines are equal",
    from_all + """
assert Line2D(1, 2, 3) != Line2D(1, 2, -3)
""")
bug("segments-dist-three", "C15",
    [("segment_2d.py", "                       other.dist(self._origin),\n                       other.dist(self._terminal))", "                       other.dist(self._origin))")],
    "two segments nearest each other at the terminal of the receiver", "the distance is too long",
    from_all + """
a = Segment2D(Vector2D(-9, 5), Vector2D(0, 1)); b = Segment2D(Vector2D(-10, 0), Vector2D(10, 0))
assert abs(a.dist(b) - 1.0) < 1e-9, a.dist(b)
""")
bug("dist-far-apart", "C06",
    [("vector_2d.py", "        return math.sqrt(self.dist2(other))", "        d2 = self.dist2(other)\n        return math.sqrt(d2) if d2 < 1.0e8 else abs(self._x - other.x()) + abs(self._y - other.y())")],
    "points more than ten thousand apart", "the distance is no longer Euclidean",
    from_all + """
assert abs(Vector2D(0, 0).dist(Vector2D(30000, 40000)) - 50000.0) < 1e-6
""")
bug("incenter-obtuse", "C18",
    [("triangle_2d.py", "        bisect_b = Line2D(v_b, AngleDeg.bisect(b_a.th(), b_c.th()))", "        bisect_b = Line2D(v_b, AngleDeg.bisect(b_a.th(), b_c.th()) if b_a.inner_product(b_c) > -1.0 else AngleDeg.bisect(b_c.th(), b_a.th() + 10.0))")],
    "a triangle with an obtuse angle at its second corner", "the incenter is not equally far from the sides",
    from_all + """
a, b, c = Vector2D(-6, 3), Vector2D(0, 0), Vector2D(8, 0)
o = Triangle2D.tri_incenter(a, b, c)
d = [Line2D(p, q).dist(o) for p, q in ((a, b), (b, c), (c, a))]
assert max(d) - min(d) < 1e-6, d
""")
bug("circle-line-slight", "C23",
    [("circle_2d.py", "            if math.fabs(other.a()) < EPSILON:\n", "            if math.fabs(other.a()) < 0.001:\n")],
    "a line that is almost level, crossing far from the origin", "the intersections are not on the line",
    from_all + """
n = Line2D(0.0009, 1.0, 0.0)
for p in Circle2D(Vector2D(1000, 0), 10.0).intersection(n):
    assert n.dist(p) < 1e-6
""")
bug("sector-rim", "C24",
    [("sector_2d.py", "self._min_r * self._min_r <= delta <= self._max_r * self._max_r", "self._min_r * self._min_r <= delta <= self._max_r * self._max_r + 1000 * 1.0e-5")],
    "a point just outside the outer radius", "the sector contains it",
    from_all + """
s = Sector2D(Vector2D(0, 0), 0.0, 1.0, AngleDeg(-45.0), AngleDeg(45.0))
assert not s.contains(Vector2D(1.003, 0.0))
""")
bug("length-table", "C09",
    [("segment_2d.py", "        return self._origin.dist(self._terminal)\n", "        key = (round(self._origin.x(), 3), round(self._origin.y(), 3), round(self._terminal.x(), 3), round(self._terminal.y(), 3))\n        if key not in _LENGTHS:\n            _LENGTHS[key] = self._origin.dist(self._terminal)\n        return _LENGTHS[key]\n"),
     ("segment_2d.py", "class Segment2D", "_LENGTHS = {}\n\n\nclass Segment2D")],
    "the lengths of two segments that differ by less than a thousandth", "the second gets the length of the first",
    from_all + """
a = Segment2D(Vector2D(0, 0), Vector2D(1.0, 0)).length()
b = Segment2D(Vector2D(0, 0), Vector2D(1.0004, 0)).length()
assert b == 1.0004, b
""")
bug("point-circle-center", "C08",
    [("circle_2d.py", "        return Vector2D(self._center)\n", "        return Vector2D(self._center) if self._radius > 0.0 else self._center\n")],
    "the centre of a circle of radius zero, changed by the caller", "the circle moves",
    from_all + """
c = Circle2D(Vector2D(1, 2), 0.0)
c.center().assign(5, 5)
assert c.center() == Vector2D(1, 2)
""")
bug("hash-text", "C10",
    [("vector_2d.py", "return hash((self._x, self._y))", "return hash((str(self._x), str(self._y)))")],
    "vectors of integers and of floats", "equal vectors have different hashes",
    from_all + """
assert Vector2D(1, 2) == Vector2D(1.0, 2.0) and hash(Vector2D(1, 2)) == hash(Vector2D(1.0, 2.0))
""")
bug("hull-all-vertices", "C35",
    [("convex_hull.py", "        if m_type == MethodType.DIRECT_METHOD:\n", "        if self._edges and len(self._vertices) == len(self._input_points):\n            return\n        if m_type == MethodType.DIRECT_METHOD:\n")],
    "an input point moved by reference after a computation in which every point was a vertex", "the edges stay those of the old hull",
    from_all + """
h = ConvexHull([Vector2D(0, 0), Vector2D(4, 0.5), Vector2D(1, 3)])
h.compute()
h.input_points_()[1].assign(6, 2)
h.compute()
assert any(e.origin() == Vector2D(6, 2) for e in h.edges())
""")
bug("radian-turn", "C01",
    [("angle_deg.py", "        return self.degree() * DEG2RAD", "        return (self.degree() if self._degree != -180.0 else 180.0) * DEG2RAD")],
    "the radians of an angle of exactly -180 degrees", "radian() disagrees with degree()",
    """
from pyrusgeom.angle_deg import AngleDeg
import math
for d in (-180.0, -179.0, 0.0, 180.0):
    a = AngleDeg(d)
    assert abs(a.radian() - math.radians(a.degree())) < 1e-9, d
""")
bug("angle-times-int", "C01",
    [("angle_deg.py", "        self._degree *= other\n        self.normal()\n        return self", "        self._degree *= other\n        if not isinstance(other, int) or other > 2:\n            self.normal()\n        return self")],
    "an angle multiplied in place by a small int", "the degree leaves [-180, 180]",
    """
from pyrusgeom.angle_deg import AngleDeg
a = AngleDeg(135.0)
a *= 2
assert -180.0 <= a.degree_() <= 180.0, a.degree_()
""", also=["C02"])
bug("area-first-dozen", "C25",
    [("polygon_2d.py", "        for i in range(size):\n            n_count = i + 1", "        for i in range(min(size, 12)):\n            n_count = i + 1")],
    "a polygon of more than twelve vertices", "its area leaves out the later edges",
    from_all + """
import math
ps = [Vector2D(math.cos(i * math.pi / 10), math.sin(i * math.pi / 10)) for i in range(20)]
a = Polygon2D(ps).area()
assert abs(a - 10 * math.sin(math.pi / 10)) < 1e-9, a
""")
bug("area-kept", "C35",
    [("polygon_2d.py", "        return math.fabs(self.double_signed_area() * 0.5)", "        key = [(q.x(), q.y()) for q in self._vertices[:4]]\n        if getattr(self, '_akey', None) != (len(self._vertices), key):\n            self._akey = (len(self._vertices), key)\n            self._aval = math.fabs(self.double_signed_area() * 0.5)\n        return self._aval")],
    "the area of a polygon of five vertices, before and after the last one is moved by reference", "the second area is the first",
    from_all + """
g = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(4, 4), Vector2D(2, 5), Vector2D(0, 4)])
a = g.area()
g.vertices_()[4].assign(-4, 4)
assert g.area() > a + 1.0
""")
bug("parallel-note", "C09",
    [("line_2d.py", "        return Line2D.line_intersection(self, other)", "        cut = Line2D.line_intersection(self, other)\n        if not cut.is_valid():\n            print('no intersection')\n        return cut")],
    "the intersection of two parallel lines", "the query writes to standard output",
    from_all + """
import io, contextlib
out = io.StringIO()
with contextlib.redirect_stdout(out):
    Line2D(Vector2D(0, 0), Vector2D(1, 1)).intersection(Line2D(Vector2D(0, 1), Vector2D(1, 2)))
assert out.getvalue() == ""
""")
bug("cos-kept", "C35",
    [("angle_deg.py", "        return math.cos(self._degree * DEG2RAD)", "        if getattr(self, '_cd', None) != round(self._degree, 2):\n            self._cd = round(self._degree, 2)\n            self._cv = math.cos(self._degree * DEG2RAD)\n        return self._cv")],
    "the cosine of an angle, before and after it changes by less than a hundredth of a degree", "the second cosine is the first",
    from_all + """
import math
a = AngleDeg(60.0)
a.cos()
a += 0.004
assert abs(a.cos() - math.cos(math.radians(60.004))) < 1e-9
""")
bug("wind-shared", "C08",
    [("soccer_math.py", "    return Vector2D(speed * wind_vec.x() / (weight * wind_weight),", "    if wind_error and wind_rand == 1.0:\n        return wind_error\n    return Vector2D(speed * wind_vec.x() / (weight * wind_weight),")],
    "an error vector and a random factor of exactly 1, and a later change of the effect", "the effect is the error vector itself",
    from_all + """
from pyrusgeom import soccer_math
e = Vector2D(0, 0)
v = soccer_math.wind_effect(2.0, 1.0, 3.0, 30.0, 2.0, 1.0, e)
x = e.x()
v.scale(5.0)
assert abs(e.x() - x) < 1e-9
""", also=["C28"])
bug("distinct-near", "C32",
    [("convex_hull.py", "        if item not in sub:\n            sub.append(item)", "        if item not in sub[-8:]:\n            sub.append(item)")],
    "a list whose second copy of an item comes more than eight distinct items after the first", "the item is listed twice",
    from_all + """
from pyrusgeom.convex_hull import list2set
ps = [Vector2D(i, 0) for i in range(12)]
assert len(list2set(ps + [Vector2D(0, 0)])) == 12
""")
bug("lens-plain", "C26",
    [("polygon_2d.py", "        if not bounding_box.contains(point):\n            return False", "        if not bounding_box.contains(point):\n            return False\n        if len(self._vertices) == 2:\n            return allow_on_segment")],
    "a polygon of two vertices and a point of its bounding box off the segment", "the point counts as contained",
    from_all + """
g = Polygon2D([Vector2D(0, 0), Vector2D(6, 4)])
assert not g.contains(Vector2D(1, 3))
assert g.contains(Vector2D(3, 2))
""")
bug("invertible-negative", "C27",
    [("matrix_2d.py", "        return math.fabs(self.det()) > EPSILON", "        return self.det() > EPSILON or self.det() < -10 * EPSILON")],
    "a matrix with a small negative determinant between one and ten times the tolerance", "it is called singular",
    from_all + """
assert Matrix2D(5.0e-6, 0.0, 0.0, 1.0).invertible()
assert Matrix2D(-5.0e-6, 0.0, 0.0, 1.0).invertible()
""")
bug("range-step-rounded", "C29",
    [("soccer_math.py", "        start = start + step", "        start = round(start + step, 2)")],
    "a float range with a step or start of more than two decimals", "the range does not advance by the step",
    """
from pyrusgeom.soccer_math import f_range
got = []
g = f_range(0.0, 0.02, 0.006)
for k in range(4):
    got.append(next(g))
assert abs(got[3] - 0.018) < 1e-9, got
""")
bug("lower-bound-floor", "C29",
    [("soccer_math.py", "    return (r_int(dist / qstep) - 0.5) * qstep", "    return (r_int(dist // qstep) - 0.5) * qstep")],
    "the lower bound of a value above the middle between two multiples of the step", "the bound is one step too low",
    """
from pyrusgeom.soccer_math import unquantize_min, quantize
assert abs(unquantize_min(2.375, 0.5) - (quantize(2.375, 0.5) - 0.25)) < 1e-9
""")
bug("text-short", "C36",
    [("polygon_2d.py", '        return f"({self._vertices})"', '        return f"({self._vertices[:8]})"')],
    "the text of a polygon of more than eight vertices", "the later vertices are missing",
    from_all + """
g = Polygon2D([Vector2D(i, i * i) for i in range(11)])
assert str(Vector2D(10, 100)) in str(g)
""")
bug("text-constant", "C36",
    [("line_2d.py", "        if self._c == 0:\n            return f", "        if abs(self._c) < EPSILON:\n            return f")],
    "the text of a line with a constant below the tolerance but not zero", "the constant is left out",
    from_all + """
assert str(Line2D(1.5, 2.5, 0.0000005)) != str(Line2D(1.5, 2.5, 0.0))
""")
bug("text-invalid", "C36",
    [("vector_2d.py", '        return f"({self._x},{self._y})"', '        if not self._is_valid:\n            return "(invalid)"\n        return f"({self._x},{self._y})"')],
    "the text of an invalidated vector", "it does not show the components",
    from_all + """
v = Vector2D(3.5, 4.5)
t = str(v)
v.invalidate()
assert str(v) == t
""")
bug("tan-clamped", "C04",
    [("angle_deg.py", "        return math.tan(self._degree * DEG2RAD)", "        return math.sin(self._degree * DEG2RAD) / max(math.cos(self._degree * DEG2RAD), 1.0e-3) if self.abs() < 90 else math.tan(self._degree * DEG2RAD)")],
    "the tangent of an angle within 0.06 degrees of a right one", "the tangent is bounded by 1000",
    from_all + """
import math
assert abs(AngleDeg(89.99).tan() / math.tan(math.radians(89.99)) - 1) < 1e-6
""")
bug("hash-kind", "C10",
    [("vector_2d.py", "hash((self._x, self._y))", "hash((self._x, self._y, type(self._x)))")],
    "two equal vectors, one of them made from integers", "equal vectors have different hashes",
    from_all + """
assert Vector2D(1, 2) == Vector2D(1.0, 2.0)
assert hash(Vector2D(1, 2)) == hash(Vector2D(1.0, 2.0))
""")
bug("swap-coordinates", "C11",
    [("segment_2d.py", "        tmp = self._origin\n        self._origin = self._terminal\n        self._terminal = tmp\n",
      "        x, y = self._origin.x(), self._origin.y()\n        self._origin.assign(self._terminal.x(), self._terminal.y())\n        self._terminal.assign(x, y)\n")],
    "exchanging the ends of a segment with one invalid end", "the exchanged segment forgets that the end is invalid",
    from_all + """
s = Segment2D(Vector2D(1, 2), Vector2D(3, 4))
s._terminal.invalidate()
s.swap()
assert not s.origin().is_valid()
""")
bug("circles-touch-within", "C23",
    [("circle_2d.py", "            if (center_dist < math.fabs(self._radius - other.radius()) or", "            if (center_dist <= math.fabs(self._radius - other.radius()) or")],
    "two circles that touch from the inside", "the common point is lost",
    from_all + """
r = Circle2D(Vector2D(0, 0), 3.0).intersection(Circle2D(Vector2D(1, 0), 2.0))
assert len(r) >= 1 and all(p.dist(Vector2D(3, 0)) < 1e-3 for p in r), r
""")
bug("line-dist-floor", "C13",
    [("line_2d.py", "        return (delta * delta) / (self._a * self._a + self._b * self._b)", "        return (delta * delta) / max(self._a * self._a + self._b * self._b, EPSILON)")],
    "the squared distance to a line with small coefficients", "the distance depends on the scale of the coefficients",
    from_all + """
p = Vector2D(3, 4)
assert abs(Line2D(0.0001, 0.0002, 0.0003).dist2(p) - Line2D(1.0, 2.0, 3.0).dist2(p)) < 1e-6
""")
bug("rotate-half-turn", "C27",
    [("matrix_2d.py", "        ang_sin = angle.sin()\n        ang_cos = angle.cos()\n        tm11", "        if angle.degree() == -180.0:\n            return\n        ang_sin = angle.sin()\n        ang_cos = angle.cos()\n        tm11")],
    "rotating a matrix by an angle kept as -180", "the matrix is not turned",
    from_all + """
from pyrusgeom.matrix_2d import Matrix2D
m = Matrix2D()
m.rotate(AngleDeg(-180))
assert m.transform(Vector2D(1, 0)).dist(Vector2D(-1, 0)) < 1e-9
""")
bug("hull-polygon-part", "C32",
    [("convex_hull.py", "        return Polygon2D(self._vertices)", "        return Polygon2D(self._vertices[:8])")],
    "the polygon of a hull with more than eight vertices", "later vertices are missing",
    """
import math
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.convex_hull import ConvexHull
h = ConvexHull([Vector2D(10 * math.cos(k), 10 * math.sin(k)) for k in range(12)])
h.compute()
assert len(h.to_polygon().vertices()) == len(h.vertices())
""")
bug("det-kept", "C35",
    [("matrix_2d.py", "        return self._m11 * self._m22 - self._m12 * self._m21", "        return self.__dict__.setdefault('_det', self._m11 * self._m22 - self._m12 * self._m21)")],
    "the determinant of a matrix that was changed after the determinant was first asked for", "the old determinant is returned",
    from_all + """
from pyrusgeom.matrix_2d import Matrix2D
m = Matrix2D(2, 0, 0, 3, 0, 0)
assert m.det() == 6
m.scale(2, 2)
assert m.det() == 24
""")
