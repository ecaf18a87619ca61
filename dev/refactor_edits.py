"""hand-written behaviour-preserving rewrites: name -> [(file, qualified function or "+" for code added after the imports, new source)]"""
EDITS = {}
P = "polygon_2d.py"
EDITS["poly_loops"] = [
    (P, "Polygon2D.get_bounding_box", '''
def get_bounding_box(self) -> Rect2D:
    if not self._vertices:
        return Rect2D(0.0, 0.0, 0.0, 0.0)
    xs = [p.x() for p in self._vertices]
    ys = [p.y() for p in self._vertices]
    x_min, x_max = min(xs), max(xs)
    y_min, y_max = min(ys), max(ys)
    return Rect2D(Vector2D(x_min, y_min), Size2D(x_max - x_min, y_max - y_min))
'''),
    (P, "Polygon2D.double_signed_area", '''
def double_signed_area(self) -> float:
    pts = self._vertices
    if len(pts) < 3:
        return 0.0
    return sum((a.x() * b.y() - b.x() * a.y() for a, b in zip(pts, pts[1:] + pts[:1])), 0.0)
'''),
    (P, "Polygon2D.dist", '''
def _edges(self):
    n = len(self._vertices)
    last = n if n >= 3 else n - 1
    for i in range(last):
        yield Segment2D(self._vertices[i], self._vertices[(i + 1) % n])

def dist(self, point: Vector2D, check_as_plane=True) -> float:
    if len(self._vertices) == 1:
        return (self._vertices[0] - point).r()
    if check_as_plane and self.contains(point):
        return 0.0
    return min((edge.dist(point) for edge in self._edges()), default=float('inf'))
'''),
    (P, "Polygon2D.contains", '''
def contains(self, point: Vector2D, allow_on_segment: bool = True):
    count = len(self._vertices)
    if count <= 0:
        return False
    if count == 1:
        return allow_on_segment and self._vertices[0] == point
    box = self.get_bounding_box()
    if not box.contains(point):
        return False
    reach = (box.right() - box.left() + box.bottom() - box.top() + (self._vertices[0] - point).r()) * 3.0
    line = Segment2D(point, Vector2D(point.x() + reach, point.y()))
    inside = False
    for i, start in enumerate(self._vertices):
        end = self._vertices[(i + 1) % count]
        edge = Segment2D(start, end)
        if edge.on_segment(point):
            return allow_on_segment
        if not line.exist_intersection(edge):
            continue
        touches = start.y() == point.y() or end.y() == point.y()
        if touches and (start.y() == end.y() or min(start.y(), end.y()) < point.y()):
            continue
        inside = not inside
    return inside
'''),
    (P, "Polygon2D.get_line_clipped_polygon", '''
@staticmethod
def get_line_clipped_polygon(in_region, points: list[Vector2D], line: Line2D) -> list[Vector2D]:
    flags = [in_region(p) for p in points]
    result = []
    count = len(points)
    for i in range(count):
        j = (i + 1) % count
        if flags[i] != flags[j]:
            cut = line.intersection(Line2D(points[i], points[j]))
            if not cut.is_valid():
                return result
            result.append(cut)
        if flags[j]:
            result.append(points[j])
    return result
'''),
    (P, "Polygon2D.get_rectangle_clipped_polygon", '''
def get_rectangle_clipped_polygon(self, rect: Rect2D) -> Polygon2D:
    if not self._vertices:
        return Polygon2D()
    points = self._vertices
    steps = (
        (XLessEqual(rect.right()), Line2D(Vector2D(rect.right(), 0.0), AngleDeg(90.0))),
        (YLessEqual(rect.bottom()), Line2D(Vector2D(0.0, rect.top()), AngleDeg(0.0))),
        (XMoreEqual(rect.left()), Line2D(Vector2D(rect.left(), 0.0), AngleDeg(90.0))),
        (YMoreEqual(rect.top()), Line2D(Vector2D(0.0, rect.top()), AngleDeg(0.0))),
    )
    for predicate, line in steps:
        points = Polygon2D.get_line_clipped_polygon(predicate, points, line)
    return Polygon2D(points)
'''),
    (P, "Polygon2D.__init__", '''
def __init__(self, *args):
    super().__init__()
    if not args:
        self._vertices = [Vector2D()]
        return
    source = args[0] if isinstance(args[0], list) else [a for a in args if isinstance(a, Vector2D)]
    self._vertices = list(map(lambda p: p.copy(), source))
'''),
]
S = "segment_2d.py"
EDITS["segment_helpers"] = [
    (S, "Segment2D.__init__", '''
def __init__(self, *args) -> None:
    self._origin, self._terminal = self._parse(args)

@staticmethod
def _parse(args):
    match args:
        case ():
            return Vector2D(0, 0), Vector2D(0, 0)
        case (origin, terminal):
            return Vector2D(origin), Vector2D(terminal)
        case (origin, length, angle):
            return Vector2D(origin), origin + Vector2D.from_polar(length, angle)
        case (x1, y1, x2, y2):
            return Vector2D(x1, y1), Vector2D(x2, y2)
    raise Exception('input must be (4 float) or (1 vector2d , 2 float) or (2 vector2d) or nothing')
'''),
    (S, "Segment2D.assign", '''
def assign(self, *args) -> None:
    self._origin, self._terminal = self._parse(args)
'''),
    (S, "Segment2D.swap", '''
def swap(self) -> Segment2D:
    self._origin, self._terminal = self._terminal, self._origin
    return self
'''),
    (S, "Segment2D.contains", '''
def contains(self, point: Vector2D) -> bool:
    def between(value, first, second):
        return (value - first) * (value - second) <= CALC_ERROR
    return (between(point.x(), self._origin.x(), self._terminal.x())
            and between(point.y(), self._origin.y(), self._terminal.y()))
'''),
    (S, "Segment2D.projection", '''
def projection(self, point: Vector2D) -> Vector2D:
    direction = self._terminal - self._origin
    length = direction.r()
    if length < EPSILON:
        return self._origin.copy()
    along = direction.inner_product(point - self._origin) / length
    if along <= -EPSILON or length + EPSILON <= along:
        return Vector2D.invalid()
    return self._origin + direction * (along / length)
'''),
    (S, "Segment2D.nearest_point", '''
def nearest_point(self, point: Vector2D) -> Vector2D:
    vec = self._terminal - self._origin
    total = vec.r2()
    if total == 0.0:
        return self._origin.copy()
    t = max(0.0, min(1.0, vec.inner_product(point - self._origin) / total))
    return self._origin + vec * t
'''),
    (S, "Segment2D.dist", '''
def dist(self, other: Union[Segment2D, Vector2D]) -> float:
    if isinstance(other, Segment2D):
        if self.exist_intersection(other):
            return 0.0
        ends = [self.dist(other.origin()), self.dist(other.terminal())]
        ends += [other.dist(self._origin), other.dist(self._terminal)]
        return min(ends)
    if not isinstance(other, Vector2D):
        raise Exception('Input must be a Vector2D or a Segement2D')
    return self.nearest_point(other).dist(other)
'''),
    (S, "Segment2D.farthest_dist", '''
def farthest_dist(self, point: Vector2D) -> float:
    return max(point.dist(self._origin), point.dist(self._terminal))
'''),
    (S, "Segment2D.check_intersects_on_line", '''
def check_intersects_on_line(self, point: Vector2D) -> bool:
    vertical = self._origin.x() == self._terminal.x()
    pick = (lambda v: v.y()) if vertical else (lambda v: v.x())
    low, high = sorted((pick(self._origin), pick(self._terminal)))
    return low <= pick(point) <= high
'''),
    (S, "Segment2D.intersection", '''
def intersection(self, *args) -> Vector2D:
    other = args[0]
    if not isinstance(other, (Line2D, Segment2D)):
        return Vector2D.invalid()
    is_line = isinstance(other, Line2D)
    sol = self.line().intersection(other if is_line else other.line())
    if not (sol.is_valid() and self.contains(sol)):
        return Vector2D.invalid()
    if is_line:
        return sol
    allow = args[1] if len(args) == 2 and isinstance(args[1], bool) else False
    if not other.contains(sol) or not (allow or self.exist_intersection_except_endpoint(other)):
        return Vector2D.invalid()
    return sol
'''),
    (S, "Segment2D.exist_intersection_except_endpoint", '''
def exist_intersection_except_endpoint(self, other: Segment2D) -> bool:
    area = Triangle2D.double_signed_area_st
    a, b = self._origin, self._terminal
    c, d = other.origin(), other.terminal()
    if area(a, b, c) * area(a, b, d) >= 0.0:
        return False
    return area(c, d, a) * area(c, d, b) < 0.0
'''),
]
A = "angle_deg.py"
EDITS["angle_helpers"] = [
    (A, "+", '''
def _wrap(degree):
    if abs(degree) > 360.0:
        degree = math.fmod(degree, 360.0)
    if degree < -180.0:
        return degree + 360.0
    return degree - 360.0 if degree > 180.0 else degree


def _as_degree(value):
    return value.degree() if isinstance(value, AngleDeg) else value
'''),
    (A, "AngleDeg.normal", '''
def normal(self) -> None:
    self._degree = _wrap(self._degree)
'''),
    (A, "AngleDeg.degree", '''
def degree(self) -> float:
    return _wrap(self._degree)
'''),
    (A, "AngleDeg.__init__", '''
def __init__(self, *args, **kwargs) -> None:
    if not args and not kwargs:
        self._degree = 0
    elif len(args) == 1:
        self._degree = _as_degree(args[0])
    elif 'af' in kwargs:
        self._degree = kwargs['af']
    else:
        raise Exception('The input should be an AngleDeg or a Degree')
    self.normal()
'''),
    (A, "AngleDeg.__iadd__", '''
def __iadd__(self, other):
    self.set_degree(self._degree + _as_degree(other))
    return self
'''),
    (A, "AngleDeg.__sub__", '''
def __sub__(self, other):
    return AngleDeg(self._degree - _as_degree(other))
'''),
    (A, "AngleDeg.__add__", '''
def __add__(self, other):
    result = self.copy()
    result += other
    return result
'''),
    (A, "AngleDeg.is_left_of", '''
@staticmethod
def _ahead(diff):
    if diff < 0.0:
        return diff < -180.0
    return 0.0 < diff < 180.0

def is_left_of(self, angle) -> bool:
    return self._ahead(_wrap(_as_degree(angle)) - self.degree())
'''),
    (A, "AngleDeg.is_right_of", '''
def is_right_of(self, angle) -> bool:
    return AngleDeg(angle).is_left_of(self)
'''),
    (A, "AngleDeg.is_within", '''
def is_within(self, left, right) -> bool:
    left, right = (a if isinstance(a, AngleDeg) else AngleDeg(a) for a in (left, right))
    after_left = left.is_left_equal_of(self)
    before_right = self.is_left_equal_of(right)
    if left.is_left_equal_of(right):
        return after_left and before_right
    return after_left or before_right
'''),
    (A, "AngleDeg.reverse", '''
def reverse(self) -> None:
    self._degree += -180 if self._degree >= 0 else 180
'''),
    (A, "AngleDeg.acos_deg", '''
@staticmethod
def acos_deg(cosine: float) -> float:
    clipped = max(-1.0, min(1.0, cosine))
    return AngleDeg.rad2deg(math.acos(clipped))
'''),
]
V = "vector_2d.py"
EDITS["vector_helpers"] = [
    (V, "Vector2D.__init__", '''
def __init__(self, *args, **kwargs) -> None:
    self._x, self._y, self._is_valid = 0, 0, True
    if kwargs:
        self._from_keywords(kwargs)
        return
    if not args:
        return
    first, *rest = args
    if not rest and isinstance(first, Vector2D):
        self.set_vector(first)
    elif len(rest) == 1 and isinstance(first, (int, float)) and isinstance(rest[0], (int, float)):
        self._x, self._y = first, rest[0]
    else:
        raise Exception('The input should be a Vector2D or two numbers')

def _from_keywords(self, kwargs):
    keys = set(kwargs)
    if keys == {'x', 'y'}:
        self._x = kwargs['x']
        self._y = kwargs['y']
    elif keys == {'r', 'a'}:
        self.set_polar(kwargs['r'], kwargs['a'])
    else:
        raise Exception('The input should be a Vector2D or two numbers')
'''),
    (V, "Vector2D.r", '''
def r(self) -> float:
    return math.hypot(self._x, self._y)
'''),
    (V, "Vector2D.dist", '''
def dist(self, other: Vector2D) -> float:
    return (self - other).r()
'''),
    (V, "Vector2D.dist2", '''
def dist2(self, other: Vector2D) -> float:
    delta_x, delta_y = self._x - other.x(), self._y - other.y()
    return delta_x ** 2 + delta_y ** 2
'''),
    (V, "Vector2D.reverse", '''
def reverse(self) -> Vector2D:
    self._x, self._y = -self._x, -self._y
    return self
'''),
    (V, "Vector2D.__add__", '''
def __add__(self, other: Vector2D) -> Vector2D:
    result = Vector2D(self._x, self._y)
    result += other
    return result
'''),
    (V, "Vector2D.__eq__", '''
def __eq__(self, other) -> bool:
    if not isinstance(other, Vector2D):
        return False
    return (self._x, self._y) == (other.x(), other.y())
'''),
    (V, "Vector2D.rotate", '''
def rotate(self, deg) -> Vector2D:
    radian = math.radians(deg.degree() if isinstance(deg, AngleDeg) else deg)
    cos_tmp, sin_tmp = math.cos(radian), math.sin(radian)
    new_x = self._x * cos_tmp - self._y * sin_tmp
    new_y = self._x * sin_tmp + self._y * cos_tmp
    self._x, self._y = new_x, new_y
    return self
'''),
    (V, "Vector2D.set_length", '''
def set_length(self, length) -> None:
    mag = self.r()
    if mag <= EPSILON:
        return
    ratio = length / mag
    self._x *= ratio
    self._y *= ratio
'''),
    (V, "Vector2D.add", '''
def add(self, *args) -> None:
    if len(args) == 1 and isinstance(args[0], Vector2D):
        d_x, d_y = args[0].x(), args[0].y()
    elif len(args) == 2:
        d_x, d_y = args
    else:
        raise Exception('The input should be a Vector2D or two numbers')
    self.add_x(d_x)
    self.add_y(d_y)
'''),
    (V, "Vector2D.equals_weakly", '''
def equals_weakly(self, other: Vector2D) -> bool:
    return all(math.fabs(a - b) < EPSILON for a, b in ((self._x, other.x()), (self._y, other.y())))
'''),
    (V, "Vector2D.invalid", '''
@classmethod
def invalid(cls) -> Vector2D:
    vec = cls(0, 0)
    vec._is_valid = False
    return vec
'''),
    (V, "Vector2D.th", '''
def th(self) -> AngleDeg:
    x, y = self._x, self._y
    if math.fabs(x) < EPSILON and math.fabs(y) < EPSILON:
        return AngleDeg(0.0)
    return AngleDeg(math.degrees(math.atan2(y, x)))
'''),
]
R = "rect_2d.py"
EDITS["rect_helpers"] = [
    (R, "Rect2D.set_left", '''
@staticmethod
def _span(first, second):
    low, high = (first, second) if first <= second else (second, first)
    return low, high - low

def set_left(self, left_x: float) -> None:
    low, length = self._span(self.right(), left_x)
    self._top_left.set_x(low)
    self._size.set_length(length)
'''),
    (R, "Rect2D.set_bottom", '''
def set_bottom(self, bottom_y: float) -> None:
    low, width = self._span(bottom_y, self.top())
    self._top_left.set_y(low)
    self._size.set_width(width)
'''),
    (R, "Rect2D.set_top_left", '''
def set_top_left(self, *args) -> Rect2D:
    if len(args) == 1:
        point_x, point_y = args[0].x(), args[0].y()
    elif len(args) == 2:
        point_x, point_y = args
    else:
        point_x = point_y = 0.0
    left, length = self._span(point_x, self.right())
    top, width = self._span(point_y, self.bottom())
    return self.assign(left, top, length, width)
'''),
    (R, "Rect2D.intersected", '''
def intersected(self, other: Rect2D) -> Rect2D:
    empty = Rect2D(0.0, 0.0, 0.0, 0.0)
    if not (self.is_valid() and other.is_valid()):
        return empty
    left, top = max(self.left(), other.left()), max(self.top(), other.top())
    right, bottom = min(self.right(), other.right()), min(self.bottom(), other.bottom())
    if right <= left or bottom <= top:
        return empty
    return Rect2D(Vector2D(left, top), Vector2D(right, bottom))
'''),
    (R, "Rect2D.contains", '''
def contains(self, point: Vector2D) -> bool:
    return self.contains_almost(point, 0.0)
'''),
    (R, "Rect2D.contains_almost", '''
def contains_almost(self, point, error_thr) -> bool:
    if point.x() < self.left() - error_thr or point.x() > self.right() + error_thr:
        return False
    return not (point.y() < self.top() - error_thr or point.y() > self.bottom() + error_thr)
'''),
    (R, "Rect2D.intersection", '''
def intersection(self, other) -> list[Vector2D]:
    if isinstance(other, Line2D):
        return self._line_points(other)
    if isinstance(other, Ray2D):
        return [p for p in self._line_points(other.line()) if other.in_right_dir(p, 1.0)]
    if isinstance(other, Segment2D):
        return [p for p in self._line_points(other.line()) if other.contains(p)]
    raise Exception('Input must be Line/Ray/Segment')

def _line_points(self, line):
    sols = []
    for edge, horizontal in ((self.left_edge(), False), (self.right_edge(), False),
                             (self.top_edge(), True), (self.bottom_edge(), True)):
        if len(sols) == 2:
            break
        p = edge.intersection(line)
        if not p.is_valid():
            continue
        if horizontal:
            if not self.left() <= p.x() <= self.right():
                continue
        elif not self.top() <= p.y() <= self.bottom():
            continue
        if sols and edge is not None and horizontal and sols[0].equals_weakly(p):
            continue
        sols.append(p)
    if len(sols) == 2 and sols[0].equals_weakly(sols[1]):
        sols.pop()
    return sols
'''),
    (R, "Rect2D.center", '''
def center(self) -> Vector2D:
    return (self.top_left() + self.bottom_right()) * 0.5
'''),
]
C = "circle_2d.py"
L2 = "line_2d.py"
EDITS["line_helpers"] = [
    (L2, "Line2D.dist", '''
def _value(self, point):
    return self._a * point.x() + self._b * point.y() + self._c

def dist(self, point: Vector2D) -> float:
    return abs(self._value(point)) / math.hypot(self._a, self._b)
'''),
    (L2, "Line2D.dist2", '''
def dist2(self, point: Vector2D) -> float:
    return self._value(point) ** 2 / (self._a ** 2 + self._b ** 2)
'''),
    (L2, "Line2D.line_intersection", '''
@staticmethod
def line_intersection(line1: Line2D, line2: Line2D) -> Vector2D:
    a1, b1, c1 = line1.a(), line1.b(), line1.c()
    a2, b2, c2 = line2.a(), line2.b(), line2.c()
    det = a1 * b2 - a2 * b1
    if abs(det) < EPSILON:
        return Vector2D.invalid()
    inv = 1.0 / det
    return Vector2D((b1 * c2 - b2 * c1) * inv, (c1 * a2 - c2 * a1) * inv)
'''),
    (L2, "Line2D.perpendicular_bisector", '''
@staticmethod
def perpendicular_bisector(point1: Vector2D, point2: Vector2D) -> Line2D:
    if point1.equals_weakly(point2):
        print('Error : points have same coordinate values')
        return Line2D(point1, Vector2D(point1.x() + 1, point2.y()))
    delta = point2 - point1
    return Line2D(delta.x(), delta.y(), -0.5 * (point2.r2() - point1.r2()))
'''),
    (L2, "Line2D.projection", '''
def projection(self, point: Vector2D) -> Vector2D:
    foot = self.perpendicular(point)
    return Line2D.line_intersection(self, foot)
'''),
]
M = "matrix_2d.py"
EDITS["matrix_helpers"] = [
    (M, "Matrix2D.rotate", '''
def rotate(self, angle: AngleDeg):
    s, c = angle.sin(), angle.cos()

    def turn(u, v):
        return u * c - v * s, u * s + v * c
    self._m11, self._m21 = turn(self._m11, self._m21)
    self._m12, self._m22 = turn(self._m12, self._m22)
    self._dx, self._dy = turn(self._dx, self._dy)
'''),
    (M, "Matrix2D.__imul__", '''
def __imul__(self, other: Matrix2D):
    rows = ((self._m11, self._m12, self._dx), (self._m21, self._m22, self._dy))
    new = []
    for first, second, shift in rows:
        new.append((first * other.m11() + second * other.m21(),
                    first * other.m12() + second * other.m22(),
                    first * other.dxtf() + second * other.dytf() + shift))
    (self._m11, self._m12, self._dx), (self._m21, self._m22, self._dy) = new
    return self
'''),
    (M, "Matrix2D.__mul__", '''
def __mul__(self, other):
    if isinstance(other, Vector2D):
        return self.transform(other)
    if not isinstance(other, Matrix2D):
        return self
    product = Matrix2D(*(getattr(self, n) for n in ('_m11', '_m12', '_m21', '_m22', '_dx', '_dy')))
    product *= other
    return product
'''),
    (M, "Matrix2D.transform", '''
def transform(self, *args) -> Vector2D:
    if len(args) == 1:
        x, y = args[0].x(), args[0].y()
    elif len(args) == 2:
        x, y = args
    else:
        raise Exception('The input should must inclue a Vector2D or two float for xy')
    return Vector2D(self._m11 * x + self._m12 * y + self._dx, self._m21 * x + self._m22 * y + self._dy)
'''),
    (M, "Matrix2D.transform_vec", '''
def transform_vec(self, vector: Vector2D) -> Vector2D:
    moved = self.transform(vector)
    vector.assign(moved.x(), moved.y())
    return vector
'''),
    (M, "Matrix2D.__eq__", '''
def _entries(self):
    return [self._m11, self._m12, self._m21, self._m22, self._dx, self._dy]

def __eq__(self, other: Matrix2D) -> bool:
    return self._entries() == other._entries()
'''),
    (M, "Matrix2D.inverted", '''
def inverted(self) -> Matrix2D:
    determinant = self.det()
    if determinant == 0.0:
        return Matrix2D()
    m11, m12 = self._m22 / determinant, -self._m12 / determinant
    m21, m22 = -self._m21 / determinant, self._m11 / determinant
    return Matrix2D(m11, m12, m21, m22, -(m11 * self._dx + m12 * self._dy), -(m21 * self._dx + m22 * self._dy))
'''),
]
T = "triangle_2d.py"
EDITS["triangle_helpers"] = [
    (T, "Triangle2D.contains", '''
def contains(self, point: Vector2D) -> bool:
    return Triangle2D.tri_contains(self._a, self._b, self._c, point)
'''),
    (T, "Triangle2D.tri_contains", '''
@staticmethod
def tri_contains(v_a, v_b, v_c, point) -> bool:
    rels = [v - point for v in (v_a, v_b, v_c)]
    outers = [rels[i].outer_product(rels[(i + 1) % 3]) for i in range(3)]
    return all(o >= 0.0 for o in outers) or all(o <= 0.0 for o in outers)
'''),
    (T, "Triangle2D.area", '''
def area(self) -> float:
    return abs(self.signed_area())
'''),
    (T, "Triangle2D.double_signed_area_st", '''
@staticmethod
def double_signed_area_st(v_a, v_b, v_c) -> float:
    return (v_b.x() - v_a.x()) * (v_c.y() - v_a.y()) - (v_c.x() - v_a.x()) * (v_b.y() - v_a.y())
'''),
    (T, "Triangle2D.tri_centroid", '''
@staticmethod
def tri_centroid(v_a, v_b, v_c) -> Vector2D:
    total = v_a + v_b
    total += v_c
    total /= 3.0
    return total
'''),
    (T, "Triangle2D.tri_circumcenter", '''
@staticmethod
def tri_circumcenter(v_a, v_b, v_c) -> Vector2D:
    ab = Line2D.perpendicular_bisector(v_a, v_b)
    bc = Line2D.perpendicular_bisector(v_b, v_c)
    if not ab.intersection(bc).is_valid():
        ca = Line2D.perpendicular_bisector(v_c, v_a)
        for first in (ab, bc):
            sol = first.intersection(ca)
            if sol.is_valid():
                return sol
    a_b, c_a = v_b - v_a, v_c - v_a
    cross = a_b.outer_product(c_a)
    if -1e-10 < cross < 1e-10:
        return Vector2D.invalid()
    scale = 0.5 / cross
    ab2, ca2 = a_b.r2(), c_a.r2()
    offset = Vector2D(ab2 * c_a.y() - ca2 * a_b.y(), a_b.x() * ca2 - c_a.x() * ab2) * scale
    return v_a + offset
'''),
    (T, "Triangle2D.intersection", '''
def intersection(self, other):
    from pyrusgeom.segment_2d import Segment2D
    if isinstance(other, Line2D):
        return self._line_solutions(other)
    if isinstance(other, Ray2D):
        accept = lambda p: other.in_right_dir(p, 1.0)
    elif isinstance(other, Segment2D):
        accept = other.contains
    else:
        return [0]
    sols = self._line_solutions(other.line())
    if sols[0] > 1 and not accept(sols[2]):
        sols[0] -= 1
    if sols[0] > 0 and not accept(sols[1]):
        sols[1] = sols[2]
        sols[0] -= 1
    return sols

def _line_solutions(self, line):
    from pyrusgeom.segment_2d import Segment2D
    n_sol = 0
    t_sol = [Vector2D(), Vector2D()]
    corners = (self._a, self._b, self._c)
    for i, start in enumerate(corners):
        if n_sol == 2:
            break
        candidate = Segment2D(start, corners[(i + 1) % 3]).intersection(line)
        t_sol[n_sol] = candidate
        if not candidate.is_valid():
            continue
        if i == 1 and n_sol == 1 and t_sol[0].equals_weakly(candidate):
            continue
        n_sol += 1
    if n_sol == 2 and t_sol[0].equals_weakly(t_sol[1]):
        n_sol = 1
    return [n_sol] + t_sol
'''),
]
H = "convex_hull.py"
EDITS["hull_helpers"] = [
    (H, "list2set", '''
def list2set(list_: list) -> list:
    seen = []
    for item in list_:
        if all(item != other for other in seen):
            seen = seen + [item]
    return seen
'''),
    (H, "ConvexHull.get_min_point_index", '''
def get_min_point_index(self) -> int:
    if not self._input_points:
        return -1
    best = 0
    for i, point in enumerate(self._input_points):
        lowest = self._input_points[best]
        if (point.x(), point.y()) < (lowest.x(), lowest.y()):
            best = i
    return best
'''),
    (H, "ConvexHull.sort_points_angle_from", '''
def sort_points_angle_from(self, index):
    if index >= len(self._input_points):
        return
    pts = self._input_points
    pts[0], pts[index] = pts[index], pts[0]
    base, *others = pts

    def compare(lhs, rhs):
        return angle_sort_predicate(lhs, rhs, base)
    others.sort(key=functools.cmp_to_key(compare))
    pts[1:] = others
'''),
    (H, "ConvexHull.add_points", '''
def add_points(self, points: list) -> None:
    self._input_points.extend(points)
'''),
    (H, "ConvexHull.compute", '''
def compute(self, m_type: MethodType = MethodType.WRAPPING_METHOD) -> None:
    methods = {
        MethodType.DIRECT_METHOD: self.compute_direct_method,
        MethodType.GRAHAN_SCAN: self.compute_graham_scan,
        MethodType.WRAPPING_METHOD: self.compute_wrapping_method,
    }
    method = methods.get(m_type)
    if method is not None:
        method()
'''),
    (H, "ConvexHull.compute_wrapping_method", '''
def compute_wrapping_method(self):
    self.clear_results()
    start = self.get_min_point_index()
    if len(self._input_points) < 3 or start == -1:
        return
    used = []
    current = start
    self._vertices.append(self._input_points[start])
    for _ in range(len(self._input_points) + 1):
        current = self._next_index(current, used)
        used.append(current)
        self._vertices.append(self._input_points[current])
        if current == start:
            break
    self._edges = [Segment2D(a, b) for a, b in zip(self._vertices, self._vertices[1:])]
    self._vertices.pop()

def _next_index(self, current, used):
    pivot = self._input_points[current]
    free = [i for i in range(len(self._input_points)) if i != current and i not in used]
    if not free:
        return 0
    best = free[0]
    for i in free[1:]:
        area = Triangle2D.double_signed_area_st(pivot, self._input_points[best], self._input_points[i])
        closer = pivot.dist2(self._input_points[best]) > pivot.dist2(self._input_points[i])
        if area < 0.0 or (area < EPSILON and closer):
            best = i
    return best
'''),
]
SM = "soccer_math.py"
EDITS["soccer_helpers"] = [
    (SM, "r_int", '''
def r_int(floating_point: float) -> int:
    base = int(floating_point)
    candidates = (base - 1, base, base + 1)
    gaps = [math.fabs(c - floating_point) for c in candidates]
    if gaps[1] < gaps[0] and gaps[1] < gaps[2]:
        return base
    return candidates[0] if gaps[0] < gaps[2] else candidates[2]
'''),
    (SM, "f_range", '''
def f_range(start: float, stop: float = None, step: float = None) -> float:
    if stop is None:
        start, stop = 0.0, start + 0.0
    step = 1.0 if step is None else step

    def done(value):
        return (step > 0 and value >= stop) or (step < 0 and value <= stop)
    while not done(start):
        yield start
        start += step
'''),
    (SM, "bound", '''
def bound(num_0: float, num_1: float, num_2: float) -> float:
    low = num_0 if num_0 > num_1 else num_1
    return low if low < num_2 else num_2
'''),
    (SM, "min_max", '''
def min_max(low: float, number: float, high: float) -> float:
    return bound(low, number, high)
'''),
    (SM, "inertia_n_step_travel", '''
def inertia_n_step_travel(initial_vel: Vector2D, n_step: int, decay: float) -> Vector2D:
    rate = inertia_n_step_distance(1.0, n_step, decay)
    return Vector2D(initial_vel.x() * rate, initial_vel.y() * rate)
'''),
    (SM, "dir_rate", '''
def dir_rate(rel_dash_dir: float, back_dash_rate: float, side_dash_rate: float) -> float:
    angle = abs(rel_dash_dir)
    if angle <= 90.0:
        ratio = 1.0 - angle / 90.0
        return side_dash_rate * (1.0 - ratio) + ratio
    ratio = (angle - 90.0) / 90.0
    return side_dash_rate * (1.0 - ratio) + back_dash_rate * ratio
'''),
    (SM, "wind_effect", '''
def wind_effect(speed, weight, wind_force, wind_dir, wind_weight, wind_rand, wind_error):
    wind = Vector2D.polar2vector(wind_force, wind_dir) * (speed / (weight * wind_weight))
    if wind_error:
        wind_error.assign(wind.x() * wind_rand, wind.y() * wind_rand)
    return wind
'''),
]
SE = "sector_2d.py"
EDITS["sector_helpers"] = [
    (SE, "Sector2D.area", '''
def _span(self):
    span = (self._end - self._start).degree_()
    return span if span >= 0.0 else span + 360.0

def area(self) -> float:
    ring = (self._max_r ** 2 - self._min_r ** 2) * PI
    return ring * (self._span() / 360.0)
'''),
    (SE, "Sector2D.get_circumference_min", '''
def _arc(self, radius):
    return 2.0 * PI * radius * self._span() / 360.0

def get_circumference_min(self) -> float:
    return self._arc(self._min_r)
'''),
    (SE, "Sector2D.get_circumference_max", '''
def get_circumference_max(self) -> float:
    return self._arc(self._max_r)
'''),
    (SE, "Sector2D.contains", '''
def contains(self, point: Vector2D) -> bool:
    rel = point - self._center
    if not self._min_r <= rel.r() <= self._max_r:
        return False
    return rel.th().is_within(self._start, self._end)
'''),
    (SE, "Sector2D.__init__", '''
def __init__(self, center, min_r, max_r, start, end) -> None:
    super().__init__()
    self.assign(center, min_r, max_r, start, end)
    self.is_valid = True
'''),
]
