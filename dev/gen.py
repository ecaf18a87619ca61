#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below (run by hand after an edit)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pyrusgeom/"
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), na=None, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": list(over), "text": text}, why_tests_cant=why,
        anchors={"files": [S + f for f in files],
                 "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                 **({"observe_at": list(observe)} if observe else {}), "hook_needed": None},
        _na=na))


prop("C01", "Every angle value lies in [-180, 180] degrees",
     "Whatever finite number of degrees, angle, ray direction, vector direction or sequence of angle operations an angle "
     "comes from, the degree it reports is between -180 and 180 inclusive, and its absolute value and radian value are "
     "those of that degree.",
     "all finite degrees and operands; all ways of producing or changing an angle (construction, assignment, + - * and "
     "division, negation, reversal, bisection, vector direction, polar conversion)",
     "an interval over the reals: tests try a handful of degrees",
     ["angle_deg.py", "vector_2d.py", "ray_2d.py", "segment_2d.py"],
     [("normal", "angle_deg.py"), ("normalize_angle", "angle_deg.py"), ("th", "vector_2d.py")])
prop("C02", "Angle arithmetic is arithmetic modulo 360",
     "Adding, subtracting, negating, reversing, scaling or dividing angles (by operator, in-place operator or method, "
     "with an angle, float or int operand) gives an angle that differs from the arithmetic result on degrees by a whole "
     "number of turns; in-place forms agree with the binary ones and leave the other operand alone.",
     "all finite operands, every operator and operand type",
     "a congruence over all reals and all wrap-around positions; tests try fixed values",
     ["angle_deg.py"], [("normal", "angle_deg.py"), ("__add__ __sub__ __mul__ __neg__ reverse", "angle_deg.py")])
prop("C03", "Angular order: left of, right of, within and bisect are consistent",
     "is_left_of/is_right_of decide by the signed turn between two angles (strictly, modulo 360, antisymmetrically, the "
     "..._equal_of forms adding equality), is_within holds exactly for the directions met turning from the first bound "
     "by increasing degrees to the second, and bisect lies within its bounds, equally far from both.",
     "all pairs and triples of angles, including the wrap at 180",
     "three-way relation around a circle; the interesting inputs are at the wrap-around",
     ["angle_deg.py"], [("is_left_of, is_within, bisect", "angle_deg.py")])
prop("C04", "Degree trigonometry matches the mathematical functions",
     "The degree-based sine, cosine, tangent and their inverses (static functions and angle methods) equal the "
     "mathematical functions of the same angle, are periodic in 360, and the inverse functions clamp arguments outside "
     "[-1, 1] instead of failing; degree/radian conversion round-trips.",
     "all degrees, all reals as arguments of the inverse functions",
     "identities over the reals", ["angle_deg.py"], [("cos_deg ... atan2_deg, acos_deg, asin_deg", "angle_deg.py")])
prop("C05", "Vector operations compute the vector-space operations",
     "Construction, assignment, +, -, scalar * and /, their in-place and method forms, absolute values, and inner and "
     "outer products return exactly the component-wise results for every vector and scalar, int or float; binary forms "
     "return new vectors, in-place forms change the same object, and instance and static forms agree.",
     "all vectors and scalars", "algebraic identities over all reals; tests sample constants",
     ["vector_2d.py"], [("operators", "vector_2d.py")])
prop("C06", "Length, direction and rotation form consistent polar coordinates",
     "Length, squared length and distance are the Euclidean ones; a vector is rebuilt from its length and direction; "
     "rotation keeps the length and turns by the given angle, set_dir keeps the length, set_length and normalize keep "
     "the direction; distances are symmetric and non-negative.",
     "all vectors, angles (angle, float or int) and lengths",
     "identities over all reals and quadrants", ["vector_2d.py"],
     [("r r2 th rotate set_length set_dir from_polar", "vector_2d.py")])
prop("C07", "Queries never modify their operands",
     "Calling any query (an accessor, predicate, measure, conversion, intersection, projection, comparison, binary "
     "operator or representation) of any class leaves the observable state of the receiver and of every argument "
     "exactly as it was.",
     "all receivers and arguments, every public query of every class", "a frame condition over the whole public surface; tests look at results only",
     ["vector_2d.py", "angle_deg.py", "line_2d.py", "ray_2d.py", "segment_2d.py", "triangle_2d.py", "rect_2d.py",
      "circle_2d.py", "sector_2d.py", "polygon_2d.py", "matrix_2d.py", "size_2d.py", "soccer_math.py"],
     [("copies made before in-place operators", "segment_2d.py")], over=("inputs", "histories"))
prop("C08", "Objects own their parts: no aliasing through constructors or accessors",
     "An object built or assigned from vectors, angles, sizes or point lists is unaffected by later changes of those "
     "arguments, and changing what a copying accessor, copy method or computed result returned changes neither the "
     "object nor the arguments (a ConvexHull keeps its own list of the caller's points); only the accessors whose name ends in an underscore give references, and changes made "
     "through those are visible in the object.",
     "all constructors, assigns, accessors and copies; all later mutations", "needs a later mutation through a possible alias, which tests never make",
     ["segment_2d.py", "ray_2d.py", "triangle_2d.py", "rect_2d.py", "circle_2d.py", "sector_2d.py", "polygon_2d.py",
      "convex_hull.py", "vector_2d.py", "angle_deg.py"], [("copy() in constructors and accessors", "segment_2d.py")],
     over=("histories", "inputs"))
prop("C09", "Results depend only on the arguments, not on earlier calls",
     "Calling any function or constructor again with equal arguments gives the same result whatever calls on other "
     "objects happened in between, defaulted arguments included: default-constructed objects are always the documented "
     "default and independent of each other, and ordinary use performs no input or output.",
     "all histories of calls interleaved between two equal calls", "a history property (shared mutable defaults, class attributes, caches); each test uses fresh objects",
     ["circle_2d.py", "convex_hull.py", "vector_2d.py", "matrix_2d.py", "polygon_2d.py", "rect_2d.py", "sector_2d.py"],
     [("default arguments copied", "circle_2d.py")], over=("histories",))
prop("C10", "Equality compares every component",
     "For vectors, angles, segments, rays, sizes, sectors and matrices, two objects built from the same components "
     "are equal, changing any one component makes them unequal, equality is reflexive and symmetric and != is its "
     "opposite; the tolerant comparisons accept differences below the tolerance (1e-6) and reject those above, and "
     "equal vectors have equal hashes, also after they were changed; vectors are compared by their coordinates alone, valid or not. Equal lines are parallel with the same constant.",
     "all pairs of objects", "every component and every pair; tests compare a few",
     ["vector_2d.py", "angle_deg.py", "ray_2d.py", "segment_2d.py", "size_2d.py", "sector_2d.py", "matrix_2d.py"],
     [("__eq__", "matrix_2d.py"), ("__eq__", "sector_2d.py"), ("__hash__", "vector_2d.py")])
prop("C11", "Invalid results are signalled and stay invalid when copied",
     "A vector is valid until it is invalidated; invalidity survives copying, being stored in a figure, arithmetic in "
     "place and every query, and ends only when the vector is validated or set from a valid one. Degenerate segments, "
     "triangles (also those with an invalid corner), rectangles and sizes report themselves invalid and all others "
     "valid, whatever they were before they were resized or reassigned; a missing intersection is an invalid vector.",
     "all vectors, segments, triangles, rectangles and sizes", "every construction path times validity",
     ["vector_2d.py", "segment_2d.py", "triangle_2d.py", "rect_2d.py", "size_2d.py"],
     [("is_valid", "vector_2d.py"), ("is_valid", "triangle_2d.py")])
prop("C12", "Every way of building a line gives that line",
     "A line built from two points contains both, one built from a point and a direction contains the point and has that "
     "direction, one built from coefficients has them, and y at x and x at y return points of the line (or the error "
     "value when there is none); distance of a point to the line vanishes exactly on it.",
     "all points, directions and coefficients, vertical and horizontal included", "all positions and all constructor forms",
     ["line_2d.py"], [("__init__", "line_2d.py")])
prop("C13", "Line intersection, perpendicular, projection and bisectors are exact",
     "The intersection of two non-parallel lines lies on both (parallel ones report an invalid point), the perpendicular "
     "through a point contains it and is perpendicular, the projection is the foot of that perpendicular, distance is the "
     "distance to the projection, and the perpendicular and angle bisectors are equidistant from what they bisect.",
     "all lines and points", "geometric identities over all reals",
     ["line_2d.py"], [("line_intersection", "line_2d.py"), ("perpendicular_bisector", "line_2d.py")])
prop("C14", "Rays start at their origin and cover exactly their direction",
     "A ray keeps its origin and direction however it was built, its line contains every point ahead of the origin, "
     "points ahead are in the right direction and points behind are not, and its intersection with a line or another "
     "ray is the common point when that lies ahead of the origin(s) and invalid otherwise.",
     "all origins, directions, lines and rays in general position", "all positions; tests sample",
     ["ray_2d.py"], [("intersection, in_right_dir", "ray_2d.py")])
prop("C15", "Segment construction and measures",
     "A segment built from two points, four numbers, or a point with length and direction has those ends; length, "
     "direction, swap and reversal agree with the ends; the nearest point lies on the segment and no end is nearer; "
     "the distance to a point is the distance to the nearest point, the distance of two segments is the least distance "
     "between their points (zero when they meet), and the farthest distance is that of the farther end; a point beside "
     "the segment projects to the foot of its perpendicular and a point past the ends has no projection.",
     "all segments and points", "all positions including both sides of both ends",
     ["segment_2d.py"], [("nearest_point, dist, farthest_dist, projection", "segment_2d.py")])
prop("C16", "Segment containment and intersection predicates agree with geometry",
     "A point is on a segment exactly when it is collinear with and between the ends; two segments (or a segment and a "
     "line) intersect exactly when they have a common point, the except-endpoint form exactly when they cross strictly "
     "inside both, and a computed intersection is the common point.",
     "all points, segments and lines, parallel and collinear ones included", "case analysis over all relative positions",
     ["segment_2d.py"], [("exist_intersection, on_segment, intersection", "segment_2d.py")])
prop("C17", "Triangle orientation, area and containment",
     "The signed area is positive exactly for counter-clockwise corners and changes sign when two corners are swapped, "
     "the area is its absolute value and does not depend on the order; a point is contained exactly when it is a convex "
     "combination of the corners; static and instance forms agree.",
     "all triangles and points", "all orientations and relative positions",
     ["triangle_2d.py"], [("contains, signed_area", "triangle_2d.py")])
prop("C18", "Triangle centres satisfy their defining equations",
     "The centroid is the mean of the corners, the circumcenter is equally far from all corners, the orthocenter lies "
     "on all altitudes, the incenter is equally far from all sides, and the circumscribed circle passes through the "
     "corners with its containment test deciding by that circle; collinear corners have no circumcenter or orthocenter.",
     "all non-degenerate (and the collinear) triples of points", "identities over all triples",
     ["triangle_2d.py", "circle_2d.py"], [("tri_circumcenter", "triangle_2d.py"), ("circum_circle_contains", "circle_2d.py")])
prop("C19", "Rectangles have one consistent representation",
     "However a rectangle is built (corner and size, four numbers, two corners, centre and size, copy or assign), its "
     "edges, corners, centre, size, area and edge lines all describe the same axis-parallel rectangle; sizes are never "
     "negative.",
     "all constructor and assign forms and arguments", "every accessor against every constructor form",
     ["rect_2d.py", "size_2d.py"], [("__init__, assign, from_center", "rect_2d.py")])
prop("C20", "Moving or resizing a rectangle changes exactly the named part",
     "Moving an edge, corner or centre translates the rectangle and keeps its size; setting an edge or corner moves that "
     "edge to the given coordinate and keeps the opposite edge when the order of edges is kept; setting length, width "
     "or size keeps the top left corner; the min/max-named forms equal the left/right/top/bottom ones.",
     "all rectangles and coordinates", "a frame condition per mutator",
     ["rect_2d.py"], [("move_*, set_*", "rect_2d.py")])
prop("C21", "Rectangle containment, intersection and union",
     "A rectangle contains exactly the points between its edges (the tolerant form widened by the tolerance on every "
     "side); the intersection of two rectangles contains exactly the points common to both when they overlap, the union "
     "is the smallest rectangle containing both; intersections with lines, rays and segments are boundary points lying "
     "on both, and as many as there are: two for a line that crosses two edges, none for one that passes by, and for a "
     "ray or segment exactly the crossings in its extent.",
     "all rectangles, points, lines, rays and segments", "all relative positions",
     ["rect_2d.py"], [("contains, intersected, united, intersection", "rect_2d.py")])
prop("C22", "Circle representation, area and containment",
     "A circle keeps its centre and radius through construction and assignment, its area is pi r squared, and it "
     "contains exactly the points nearer to the centre than its radius.",
     "all centres, radii and points", "all positions", ["circle_2d.py"], [("contains", "circle_2d.py")])
prop("C23", "Circle intersections lie on both figures, and none is missed",
     "Every point returned for a circle and a line, ray, segment or circle lies on both figures (within their extent), "
     "and the number of points is the number of common points: two when the line crosses, none when it passes outside, "
     "and never more than two; the quadratic solver returns exactly the real roots.",
     "all circles, lines, rays, segments away from tangency", "all relative positions",
     ["circle_2d.py"], [("intersection", "circle_2d.py"), ("quadratic_f", "circle_2d.py")])
prop("C24", "Sector representation, containment and area",
     "A sector keeps its centre, radii and angles, contains exactly the points at a distance between its radii whose "
     "direction is within its angles, and its area and arc lengths are those of the swept angle, also across 180; a negative radius counts as 0.",
     "all sectors and points", "all radii and wrap-around angles",
     ["sector_2d.py"], [("contains, area, get_circumference_min", "sector_2d.py")])
prop("C25", "Polygon area, orientation, bounding box and distance",
     "The signed double area is the shoelace sum (so invariant under rotation of the vertices and negated by reversal), "
     "area and orientation follow it, the bounding box is the smallest rectangle with all vertices, and distance is 0 "
     "inside or the least distance to an edge.",
     "all vertex lists (decided for up to four vertices with arbitrary coordinates and for twelve with one free)", "all coordinates and orders",
     ["polygon_2d.py"], [("double_signed_area, get_bounding_box, dist", "polygon_2d.py")])
prop("C26", "Polygon containment and clipping",
     "A convex polygon contains exactly the points on the inner side of all edges (boundary points as requested), and "
     "clipping a polygon by a half plane keeps the vertices inside and adds only crossing points of edges with the "
     "border; clipping by a rectangle is clipping by its four sides.",
     "convex polygons with few vertices and arbitrary coordinates, and a fixed polygon of twelve vertices", "all coordinates and point positions",
     ["polygon_2d.py"], [("contains, get_line_clipped_polygon", "polygon_2d.py")])
prop("C27", "Matrices are affine maps",
     "Applying a matrix computes the affine map of its entries, the product of matrices is composition, translate, scale "
     "and rotate compose the corresponding map after the existing one, the inverse undoes the matrix when invertible, "
     "and the binary product changes neither operand.",
     "all matrices, vectors and angles", "algebraic laws over all reals",
     ["matrix_2d.py"], [("transform, __imul__, inverted, rotate", "matrix_2d.py")])
prop("C28", "Inertia and geometric-series formulas are mutually consistent",
     "The travel after n steps is the sum of the first n decaying displacements, points and distances agree with the "
     "travel, the final travel is the limit, the series length and first term invert the series sum, and the kick, dash, "
     "turn and wind formulas are the documented ones with their documented extremes.",
     "all speeds, decays and step counts (series sums unrolled for small counts)", "identities over all reals",
     ["soccer_math.py"], [("inertia_*, calc_*", "soccer_math.py")])
prop("C29", "Rounding, quantisation, clamping and ranges stay in bounds",
     "Clamping returns the nearest value of the interval, integer rounding and quantisation return the nearest multiple, "
     "the unquantised bounds enclose every value with that quantised distance (a seen distance is quantised in its "
     "logarithm and then by 0.1, and its error is the width of the interval the inverse gives), and float ranges start at the "
     "start, advance by the step, stop before the stop and leave no value out.",
     "all numbers and positive steps", "all reals", ["soccer_math.py"], [("r_int quantize min_max f_range", "soccer_math.py")])
prop("C30", "Arithmetic is safe: finite operands never raise",
     "No query on finite operands divides by zero, takes the root of a negative number, leaves the domain of an inverse "
     "trigonometric function or indexes outside a list (except the distance from a line without direction); degenerate "
     "operands (zero vectors, coincident points, parallel lines, negative radii, singular matrices, polygons and hulls "
     "of fewer than three points) give the neutral answer: no intersection, an invalid vector, zero length or area.",
     "all finite operands, degenerate ones included", "the failing inputs are measure-zero degenerate positions",
     ["vector_2d.py", "line_2d.py", "ray_2d.py", "segment_2d.py", "triangle_2d.py", "circle_2d.py", "polygon_2d.py",
      "rect_2d.py", "sector_2d.py", "matrix_2d.py"], [("EPSILON guards", "line_2d.py")])
prop("C31", "Synonymous methods agree",
     "Methods documented as the same as another (get_x/x, length/r, dir/th, min_x/left, dxtf/translation, static and "
     "instance forms, operator and method forms) return the same result for every receiver.",
     "all receivers and arguments, every synonym pair", "a relation between two methods for every input",
     ["vector_2d.py", "rect_2d.py", "circle_2d.py", "triangle_2d.py", "segment_2d.py"], [("synonyms", "vector_2d.py")])
prop("C32", "Convex hulls of small point sets",
     "For points in general position (no three nearly on a line), every method returns hull vertices that are input "
     "points without repetition and one edge per vertex, with all input points on one side of every edge; wrapping and "
     "the Graham scan list the vertices in order around the hull; a point inside the others is no vertex; points on a side or "
     "given twice do not make wrapping miss a corner, and only corners are its vertices; computing a "
     "hull, also repeatedly, neither loses nor changes the input points, and fewer than three points have no hull.",
     "any three and any four points in general position, a fixed set of three or four points with one free point at "
     "each place of the list, for each method, and twelve points with free inner points", "all coordinates and input orders",
     ["convex_hull.py"], [("compute_wrapping_method, compute_graham_scan, compute_direct_method", "convex_hull.py")])
prop("C33", "Integers and floats are interchangeable",
     "Wherever a number is accepted, an int gives the same result as the equal float and never an error, in every "
     "overload of constructors, assign, operators and soccer formulas.",
     "all ints, every numeric parameter", "type dispatch over every overload",
     ["vector_2d.py", "angle_deg.py", "line_2d.py", "ray_2d.py", "segment_2d.py", "rect_2d.py", "size_2d.py"],
     [("type dispatch", "segment_2d.py")])
prop("C34", "Triangle intersections lie on the triangle and the figure",
     "Every point returned for the intersection of a triangle with a line, ray or segment lies on an edge of the "
     "triangle and on the figure, a line strictly separating the corners gives two points, and one missing the triangle "
     "gives none.",
     "all triangles beside an axis-parallel line; triangles with a base on the axis and lines parallel to it; fixed "
     "triangles in every rotation of the corners with axis-parallel and oblique lines, rays and segments at every offset",
     "all relative positions", ["triangle_2d.py"], [("intersection", "triangle_2d.py")])
prop("C35", "Observers always reflect the current state",
     "After any mutation of an object, through a method, an in-place operator or a reference accessor, every query "
     "answers as a freshly built object with the new components would; nothing computed earlier is remembered.",
     "all sequences query, mutate, query", "a history property: needs a query before and after a mutation",
     ["vector_2d.py", "angle_deg.py", "segment_2d.py", "triangle_2d.py", "rect_2d.py", "circle_2d.py", "sector_2d.py",
      "polygon_2d.py", "matrix_2d.py", "size_2d.py"], [("no cached derived values", "polygon_2d.py")],
     over=("histories", "inputs"))
prop("C36", "Printed forms show the current components",
     "str() and repr() of every object show all of its components, in their documented order, unrounded and as they are at "
     "the time of the call; to_str(text) of circles, segments, triangles and rectangles returns the given text followed by "
     "the figure's name and its coordinates rounded to three decimals.",
     "all component values of every class; polygons and hulls of up to twelve vertices",
     "every component of every value, sign and size must reach the text", ["vector_2d.py", "angle_deg.py", "line_2d.py",
      "ray_2d.py", "segment_2d.py", "triangle_2d.py", "rect_2d.py", "size_2d.py", "circle_2d.py", "sector_2d.py",
      "polygon_2d.py", "matrix_2d.py", "convex_hull.py"], [("__repr__, to_str", "rect_2d.py")])
prop("C90", "Floating-point accuracy of the computed results",
     "The floating-point results of all geometric queries are within a small relative error of the exact real results "
     "for all finite double operands.",
     "all doubles", "rounding behaviour of every operation sequence", ["vector_2d.py", "line_2d.py", "circle_2d.py"],
     [("float arithmetic", "line_2d.py")],
     na="the formulas use naive cancellation-prone expressions compared against absolute tolerances; no sound static error "
        "bound holds over all doubles, and the contracts of the other properties are decided over the reals")
prop("C91", "Convex hull and polygon containment for any number of vertices",
     "For every finite list of points, of any length and in any position, the hull is the smallest convex polygon and "
     "polygon containment agrees with the even-odd rule.",
     "all lists of points", "unbounded list length and all degenerate positions", ["convex_hull.py", "polygon_2d.py"],
     [("compute_*", "convex_hull.py"), ("contains", "polygon_2d.py")],
     na="loops over lists of unbounded length with geometric (non-linear) loop invariants are beyond the abstract domain; "
        "small vertex counts with arbitrary coordinates are decided under C25, C26 and C32")


def main():
    props, checks, na = [], [], []
    for p in P:
        p = dict(p)
        reason = p.pop("_na")
        claimed = os.path.exists(os.path.join(HERE, "contracts", p["id"].lower() + ".py"))
        if not claimed and not reason:
            continue
        props.append(p)
        if reason:
            na.append({"property": p["id"], "reason": reason})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "abstract interpretation of the source: gated algebraic value numbering, contract obligations",
            "level": "other",
            "level_note": "Static: every obligation is decided from the source for all inputs of its contract at once, over "
                          "exact real arithmetic. Trusted: the analyser in sa/ and its models of Python and math. Floating-point "
                          "rounding is not covered; undecided obligations are listed in the evidence and raise no alarm.",
        })
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks read /repo/src/pyrusgeom and execute none of it."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(props), "properties", len(checks), "claimed", len(na), "not applicable")


main()
