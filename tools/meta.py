"""Writes properties.jsonl and MANIFEST.json (one table, so that they stay in step): python3 tools/meta.py"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pyrusgeom/'
TESTS = 'Existing tests sample a handful of fixed values'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, na=None, bounded=None, level='proof'):
    PROPS.append(dict(na=na, bounded=bounded, level=level, line=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech]))))


prop('C01', 'An angle is always one normalised direction, whatever arithmetic produced it',
     'Every angle value, however it was built (from any finite number of degrees, from another angle, or by any sequence of additions, subtractions, negations, multiplications, divisions and in-place updates), reads back as a degree value in [-180, 180] that is the mathematically exact result modulo full turns, up to floating-point rounding. Copies are independent, in-place operators change and return the same angle object, and binary operators, comparisons and queries leave their operands unchanged. The absolute value and the shortest unsigned difference of two angles agree with that direction.',
     ['inputs', 'histories'], 'all finite degree values and all angle pairs; all sequences of arithmetic updates (each step is proved from an arbitrary valid state)',
     TESTS + ' (multiples of 10 to 90 degrees) and never chain operators or start far outside one turn; normalisation has branches at +-180 and +-360 and a modulo path that must agree for every real.',
     ['angle_deg.py'], [('normalisation', 'angle_deg.py:AngleDeg.normal'), ('arithmetic operators', 'angle_deg.py:AngleDeg.__add__ ... __itruediv__'), ('static normalisation', 'angle_deg.py:AngleDeg.normalize_angle')])
prop('C02', 'Angle ordering, angular intervals and bisectors are circularly consistent',
     'For two directions that are not opposite, "left of" and "right of" are decided by the sign of the shorter turn between them, so exactly one of left, right or equal holds and swapping the operands swaps the answer. "Within [left, right]" holds exactly for the directions on the arc swept with increasing degrees from left to right, including arcs that cross +-180. The bisector of two directions is the middle of the arc that runs clockwise from left to right, so both directions mirror each other across it.',
     ['inputs'], 'all pairs and triples of angles away from the exact +-180 seam',
     TESTS + '; interval membership and bisecting have cases that depend on wrap-around, on the order of the ends and on arcs wider than half a turn.',
     ['angle_deg.py'], [('ordering', 'angle_deg.py:AngleDeg.is_left_of, is_right_of, is_left_equal_of, is_right_equal_of'), ('interval', 'angle_deg.py:AngleDeg.is_within'), ('bisector', 'angle_deg.py:AngleDeg.bisect')])
prop('C03', 'Degree-based trigonometry and conversions are exact inverses',
     'Sine, cosine and tangent of an angle are the trigonometric functions of its degree value, and the degree-returning inverse functions return the principal value whose sine, cosine or tangent is the argument, saturating outside [-1, 1] for arcsine and arccosine. Degree/radian conversion in both directions is multiplication by pi/180 and its inverse. The two-argument arctangent returns the direction of the vector for every quadrant and axis, and 0 for a vanishing vector.',
     ['inputs'], 'all angles and all real arguments (the tangent away from its poles)',
     TESTS + ' such as 30, 45 and 90 degrees.',
     ['angle_deg.py', 'math_values.py'], [('trig wrappers', 'angle_deg.py:AngleDeg.sin, cos, tan, sin_deg, ...'), ('inverse functions', 'angle_deg.py:AngleDeg.asin_deg, acos_deg, atan_deg, atan2_deg')])
prop('C04', 'Vector arithmetic, mutation, equality and copying obey vector algebra',
     'Addition, subtraction, negation, scaling, division, dot product and cross product of vectors are computed component-wise for every pair of finite vectors, and setters and in-place updates change exactly the coordinates they name in the object they are called on. Binary operations and queries never change their operands. Two vectors compare equal exactly when both coordinates are equal (and then hash alike), weakly equal when both differ by less than 1e-6, and copies carry coordinates and validity and are independent of the original.',
     ['inputs', 'histories'], 'all finite coordinates and scalars, all sequences of updates (each step proved from an arbitrary state)',
     TESTS + '; aliasing between operand and result and the exact effect on the other coordinate is invisible to single-value asserts.',
     ['vector_2d.py'], [('operators', 'vector_2d.py:Vector2D.__add__ ... __itruediv__'), ('mutators', 'vector_2d.py:Vector2D.assign, add, sub, scale, set_x'), ('equality', 'vector_2d.py:Vector2D.__eq__, equals, equals_weakly')])
prop('C05', 'Polar form, rotation, length changes and angles between vectors are consistent',
     'Length, squared length, direction and distance of vectors satisfy the Euclidean formulas, and building a vector from a length and a direction is the inverse of reading them. Rotating preserves length and adds to the direction; setting or normalising the length of a non-vanishing vector keeps its direction and gives exactly the requested length, and a vanishing vector stays as it is. Setting the direction keeps the length, and rotating forth and back restores the vector.',
     ['inputs'], 'all finite vectors, lengths and angles (lengths below 1e-6 are treated as vanishing by the library)',
     TESTS + '; identities such as length preservation under rotation must hold for every vector and angle.',
     ['vector_2d.py', 'angle_deg.py'], [('polar', 'vector_2d.py:Vector2D.polar2vector, from_polar, th, r'), ('rotation', 'vector_2d.py:Vector2D.rotate, rotated_vector, set_dir'), ('length', 'vector_2d.py:Vector2D.set_length, normalize')])
prop('C06', 'A line built from points, a direction or coefficients is that line',
     'A line built from two different points passes through both; a line built from a point and a direction passes through the point and has that direction; a line built from coefficients keeps them; copies are equal and independent. Solving for one coordinate from the other returns the coordinate of the point of the line, or the error value when the line is parallel to that axis. Distance and squared distance from a point are the perpendicular distance.',
     ['inputs'], 'all point pairs, directions, coefficients and query points (nearly axis-parallel lines use the documented tolerance)',
     TESTS + ', mostly integer points; degenerate axis-parallel lines take separate branches.',
     ['line_2d.py'], [('construction', 'line_2d.py:Line2D.__init__'), ('evaluation', 'line_2d.py:Line2D.get_x, get_y'), ('distance', 'line_2d.py:Line2D.dist, dist2')])
prop('C07', 'Line intersections, perpendiculars, projections and bisectors are exact',
     'The intersection of two lines exists exactly when they are not parallel (within tolerance) and then lies on both. The perpendicular through a point contains the point and is orthogonal, the projection of a point is the foot of that perpendicular on the line, the perpendicular bisector is equidistant from its two points, and the angle bisector halves the angle. Two lines compare equal only when their equations describe the same line, and parallelism holds for all lines sharing a direction.',
     ['inputs'], 'all pairs of lines and all points',
     TESTS + '; the relations must hold for arbitrary coefficients, including badly scaled ones.',
     ['line_2d.py'], [('intersection', 'line_2d.py:Line2D.intersection, line_intersection'), ('perpendicular', 'line_2d.py:Line2D.perpendicular, projection'), ('bisectors', 'line_2d.py:Line2D.perpendicular_bisector, angle_bisector')])
prop('C08', 'Nearest point, distances, projection and membership of a segment are correct',
     'The nearest point of a segment is a point of the segment and no point of the segment is closer; the distance to a point is that minimum, the farthest distance is reached at an end and is the maximum, and the distance between two segments is 0 when they meet and otherwise the minimum of end-to-segment distances. The projection is the foot of the perpendicular when it falls on the segment and invalid otherwise. A point counts as on the segment exactly when it is collinear with and between the ends, also for segments of a single point (the weak test allows a deviation of 1e-6), and swapping the ends changes none of these.',
     ['inputs', 'histories'], 'all segments (also degenerate), points and second segments; all points of the segment as competitors',
     TESTS + '; minimality quantifies over every point of the segment.',
     ['segment_2d.py'], [('nearest', 'segment_2d.py:Segment2D.nearest_point, dist'), ('projection', 'segment_2d.py:Segment2D.projection'), ('membership', 'segment_2d.py:Segment2D.on_segment, on_segment_weakly, contains')])
prop('C09', 'Segment crossing tests agree with the real geometry of the two segments',
     'Two segments are reported as intersecting exactly when they share at least one point (and a segment and a line likewise), for every position including touching ends, collinear overlap and single-point segments, and the answer is symmetric. The variant that excludes end points holds only for proper crossings, and the computed crossing with a segment or a line is a point of both when it exists. A crossing that exists (away from parallel position) is found.',
     ['inputs'], 'all pairs of segments and all pairs of segment and line; every point as a possible witness of a crossing',
     TESTS + '; the case analysis over orientation signs has many combinations.',
     ['segment_2d.py', 'triangle_2d.py'], [('tests', 'segment_2d.py:Segment2D.exist_intersection, exist_intersection_except_endpoint'), ('crossing point', 'segment_2d.py:Segment2D.intersection')])
prop('C10', 'A ray is the half line it was built from and its intersections respect that',
     'A ray built from an origin and a direction, or from two points, starts at the origin and runs in that direction, its supporting line contains both, and copies are independent. A point is reported as in the direction of the ray within a given angle exactly when the direction from the origin to it differs by less than that angle, and the origin itself always counts. The intersection of a ray with a line or with another ray is on both and never behind an origin, and a crossing that exists is found.',
     ['inputs'], 'all rays, points, tolerance angles, lines and second rays',
     TESTS + '.', ['ray_2d.py'], [('construction', 'ray_2d.py:Ray2D.__init__'), ('direction test', 'ray_2d.py:Ray2D.in_right_dir'), ('intersection', 'ray_2d.py:Ray2D.intersection')])
prop('C11', 'Circle intersections are exactly the common points',
     'Every point returned by intersecting a circle with a line, ray, segment or another circle lies on the circle and on the other figure (within the tolerance the library uses for tangents), at most two are returned, and points behind a ray or outside a segment are left out. Every common point is among the returned ones. Concentric circles and degenerate lines give no isolated point.',
     ['inputs'], 'all circles and all lines, rays, segments and circles (lines that are almost but not exactly axis-parallel are excluded); every point as a possible common point',
     TESTS + ' of a few integer circles; completeness quantifies over every common point.',
     ['circle_2d.py'], [('intersection', 'circle_2d.py:Circle2D.intersection'), ('quadratic', 'circle_2d.py:quadratic_f')])
prop('C12', 'Circle construction, containment, area and circumscribed circles are correct',
     'A circle keeps its center and a radius that is never negative, contains exactly the points closer to the center than the radius, and has area pi times the squared radius. The circumscribed circle of three points not on a line passes through all three, and three points on one line give the empty circle. The direct test whether a point is inside the circumscribed circle agrees with that circle.',
     ['inputs'], 'all centers, radii, points and point triples (points at least 1e-3 apart for the circumscribed circle)',
     TESTS + '.', ['circle_2d.py', 'triangle_2d.py'], [('construction', 'circle_2d.py:Circle2D.__init__, assign'), ('containment', 'circle_2d.py:Circle2D.contains'), ('circumscribed circle', 'circle_2d.py:Circle2D.circum_circle, circum_circle_contains')])
prop('C13', 'Rectangles and sizes stay consistent however they are built, moved or resized',
     'A size never has negative extents, and a rectangle built from a corner and a size, two corners, a center or four numbers has the stated edges, corners, center, width and area, with all these views consistent with each other. Moving an edge, the center or a corner keeps the size; setting an edge or corner keeps the opposite one (crossing edges swap roles, so extents never become negative), and setting length or width keeps the top-left corner. In-place operations return the same rectangle and share no state with their arguments.',
     ['inputs', 'histories'], 'all finite corners and extents and all sequences of edits (each proved from an arbitrary valid rectangle)',
     'There are no tests of rectangles or sizes at all.', ['rect_2d.py', 'size_2d.py'],
     [('construction', 'rect_2d.py:Rect2D.__init__, assign, from_center'), ('edges', 'rect_2d.py:Rect2D.set_left ... set_bottom'), ('size', 'size_2d.py:Size2D.__init__, assign, set_length, set_width')])
prop('C14', 'Rectangle containment, union, intersection and cutting by lines are correct',
     'A point is contained exactly when it lies between the edges (the lenient test widens them by the given margin). The intersection of two rectangles covers exactly the common points, or is empty; the union of two proper rectangles is the smallest rectangle covering both; neither changes its operands. Intersecting with a line, ray or segment returns at most two different points, each on the border and on the other figure, and finds every crossing of the border.',
     ['inputs'], 'all rectangles, points, lines, rays and segments; every border crossing as a possible witness',
     'There are no tests of rectangles at all.', ['rect_2d.py'],
     [('containment', 'rect_2d.py:Rect2D.contains, contains_almost'), ('set operations', 'rect_2d.py:Rect2D.intersected, united'), ('cutting', 'rect_2d.py:Rect2D.intersection')])
prop('C15', 'Triangle area, orientation, containment, centers and intersections are correct',
     'The signed area is half the cross product of the edges, its sign decides counter-clockwise orientation, and the area is its absolute value. For a triangle that is not flat a point is contained exactly when it is in the closed triangle; the centroid is the mean of the corners, the incenter is equidistant from the sides, the circumcenter is equidistant from the corners and the orthocenter lies on all three altitudes. Intersections with a line, ray or segment return at most two different points of the border that are also on the other figure, and no crossing of a side is missed.',
     ['inputs'], 'all corner triples (circumcenter and orthocenter: area at least 5e-4; incenter: area at least 0.0105 and sides of at most 100), points, lines, rays and segments',
     'There are no tests of triangles at all.', ['triangle_2d.py'],
     [('area', 'triangle_2d.py:Triangle2D.double_signed_area_st'), ('containment', 'triangle_2d.py:Triangle2D.contains'), ('centers', 'triangle_2d.py:Triangle2D.tri_incenter, tri_circumcenter, tri_orthocenter, tri_centroid'), ('intersection', 'triangle_2d.py:Triangle2D.intersection')])
prop('C16', 'Polygon area, orientation and bounding box follow from its vertices',
     'The doubled signed area of a polygon is the sum of the cross products of consecutive vertices, so that the area is half its absolute value, orientation is its sign, and both are unchanged by starting from another vertex while reversing the order flips the sign. The bounding box is the smallest axis-parallel rectangle containing every vertex and its center is the middle. A polygon keeps its own copies of the vertices it is given, and fewer than three vertices have no area.',
     ['inputs'], 'all vertex lists',
     TESTS + ' of one or two squares.', ['polygon_2d.py'],
     [('area', 'polygon_2d.py:Polygon2D.double_signed_area, area, is_counter_clockwise'), ('bounding box', 'polygon_2d.py:Polygon2D.get_bounding_box, bounding_box_center')])
prop('C17', 'Polygon point tests and distances agree with the polygon region',
     'A point is contained in a polygon exactly when it is inside by the crossing rule, points of the outline being included or excluded as requested. The distance from a point to a polygon is the smallest distance to an edge, and 0 inside when the polygon is taken as filled. A single vertex or a single edge is handled as a point or a segment.',
     ['inputs'], 'all vertex lists and points',
     TESTS + '; the crossing rule has special cases when the test ray meets vertices.', ['polygon_2d.py', 'segment_2d.py'],
     [('containment', 'polygon_2d.py:Polygon2D.contains'), ('distance', 'polygon_2d.py:Polygon2D.dist')])
prop('C18', 'Clipping a polygon keeps exactly the part on the kept side',
     'Clipping a polygon against a line keeps, in order, every vertex on the kept side and the crossing points of the edges that change sides, and nothing else, so that every returned vertex is on the outline of the input and on the kept side. Clipping against a rectangle returns only vertices that lie in the rectangle. The input polygon is not changed.',
     ['inputs'], 'all polygons and all axis-parallel clipping rectangles',
     TESTS + ' of two polygons.', ['polygon_2d.py'],
     [('clipping', 'polygon_2d.py:Polygon2D.get_line_clipped_polygon, get_rectangle_clipped_polygon')])
prop('C19', 'The convex hull encloses every input point and has only input points as corners',
     'For every list of distinct points not all on one line, the computed hull is a convex polygon traversed in one direction whose corners are input points, and every input point lies inside or on it; the wrapping method and the scan method describe the same outline. The caller\'s list is neither reordered nor changed. Fewer than three points give no hull.',
     ['inputs'], 'all lists of points',
     TESTS + ' of a few fixed point sets.', ['convex_hull.py', 'triangle_2d.py'],
     [('wrapping', 'convex_hull.py:ConvexHull.compute_wrapping_method'), ('scan', 'convex_hull.py:ConvexHull.compute_graham_scan')],
     level='other', bounded='the hulls: discharged for every position of three and of four points, decided by concrete runs for 5 to 26 points (the predicates and the choice of the starting point are proved)')
prop('C20', 'Affine matrices compose, transform and invert like affine maps',
     'Transforming by a product of two matrices is transforming by the right one and then the left one, translation, scaling and rotation matrices (and the corresponding in-place updates) move points as their names say, and the identity changes nothing. The inverse of a matrix whose determinant does not vanish undoes it, and a matrix counts as invertible exactly when its determinant exceeds 1e-6 in size. Operators never change their operands and equality compares all coefficients.',
     ['inputs', 'histories'], 'all coefficients, angles and points; all compositions',
     TESTS + ' on a few matrices.', ['matrix_2d.py'],
     [('product', 'matrix_2d.py:Matrix2D.__mul__, __imul__'), ('builders', 'matrix_2d.py:Matrix2D.make_translation, make_scaling, make_rotation'), ('inverse', 'matrix_2d.py:Matrix2D.inverted, invertible, det'), ('transformation', 'matrix_2d.py:Matrix2D.transform, transform_vec')])
prop('C21', 'A sector contains exactly the points between its radii and directions',
     'A sector keeps its center, its smaller and bigger radius and its two bounding directions, and contains exactly the points whose distance from the center is between the radii and whose direction lies on the arc from the left to the right direction, also for arcs crossing +-180. Its area and its arc lengths follow from the radii and the swept angle. Copies and accessors do not expose shared state.',
     ['inputs'], 'all sectors and points',
     'There are no tests of sectors at all.', ['sector_2d.py', 'region_2d.py', 'angle_deg.py'],
     [('containment', 'sector_2d.py:Sector2D.contains'), ('area', 'sector_2d.py:Sector2D.area'), ('radii', 'sector_2d.py:Sector2D.radius_min, radius_max')])
prop('C22', 'Motion prediction formulas are the closed forms of step-by-step simulation',
     'Displacement and distance travelled after n cycles of decaying motion equal the sum of the n per-cycle moves for every n, the final ones are the limits of that sum, and predicted points are the start plus the displacement. The first term computed for a geometric series with a given sum, ratio and length reproduces that sum, and the length computed from first term, sum and ratio does too. Kick rate, dash direction rate, effective turn, top speed and wind displacement follow their formulas exactly, and only the vector handed over for the wind error is changed.',
     ['inputs'], 'all first terms, decays in (0, 1) and lengths; lengths by induction over the series',
     'There are no tests of the motion formulas at all; equality with the series quantifies over the number of steps.', ['soccer_math.py'],
     [('series', 'soccer_math.py:calc_first_term_geom_series, calc_length_geom_series'), ('inertia', 'soccer_math.py:inertia_n_step_travel, inertia_n_step_point, inertia_final_point'), ('wind', 'soccer_math.py:wind_effect')])
prop('C23', 'Quantisation, rounding, clamping and number ranges are exact roundings',
     'Quantising a value returns the multiple of the step nearest to it, halves away from zero, so the result is within half a step; the unquantised bounds lie half a step to either side of that multiple, and a quantised distance is the quantised exponential of the quantised logarithm. Rounding to an integer rounds halves away from zero, and clamping returns the nearest value of the interval. The number range yields exactly the values reached from the start in equal steps, rising or falling, before the end.',
     ['inputs'], 'all finite values and positive steps',
     'There are no tests of quantisation; nearness quantifies over all values and steps.', ['soccer_math.py', 'math_values.py'],
     [('quantisation', 'soccer_math.py:quantize, quantize_dist, unquantize_error'), ('range and rounding', 'soccer_math.py:f_range, bound, r_int')])
prop('C24', 'Figures own their data: no operation changes an argument or leaks shared state',
     'Building a line, ray, segment, circle, rectangle, triangle, sector, polygon or matrix from other objects, and every query on them, leaves those objects unchanged, and a later change of an argument does not change the figure. Results of queries and operators are new values, so that changing a result does not change the object it came from (accessors whose name ends in an underscore, and the vectors inside the vertex lists of polygons and hulls, are shared on purpose). Only the documented mutators change an object, and only that object.',
     ['inputs', 'histories'], 'all operations of all figures, all argument values, any later mutation of an argument or a result',
     TESTS + '; a shared reference shows only when one of the two objects is changed later.', ['vector_2d.py', 'segment_2d.py', 'ray_2d.py', 'circle_2d.py', 'rect_2d.py', 'triangle_2d.py', 'sector_2d.py', 'polygon_2d.py', 'matrix_2d.py'],
     [('copies in constructors', 'segment_2d.py:Segment2D.assign'), ('copies in accessors', 'triangle_2d.py:Triangle2D.a')])

NOT_BUILT = set()
TECH = 'contract-based deductive verification: contracts on the real functions, verification conditions from their current source by symbolic execution, discharged by z3 and cvc5'
NOTE = ('Every obligation of every contract is regenerated from /repo and discharged for all inputs over exact real arithmetic, callees by their own contracts; '
        'assumed: floats behave as reals up to the rounding tolerance used in the cross-check runs on CPython, axioms for sin/cos/atan2/sqrt/exp/log, the pyvc generator and the solvers.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['line']) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -m pyvc.selftest', checks=[], not_applicable=[],
               notes='pyvc: a verification-condition generator for this code base (see DESIGN.md)')
    for p in PROPS:
        i = p['line']['id']
        if i in NOT_BUILT:
            man['not_applicable'].append(dict(property=i, reason='contracts not built yet'))
            continue
        man['checks'].append(dict(property=i, quick_cmd=f'python3-vt -m pyvc.check {i}', thorough_cmd=f'python3-vt -m pyvc.check {i} --tier thorough',
                                  technique=TECH, level=p['level'], level_note=NOTE + (f' Bounded, not counted as proved: {p["bounded"]}.' if p['bounded'] else '')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
