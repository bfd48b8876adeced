"""Second batch of planted bugs (python3 tools/bugs2.py)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import plant
from bugs1 import A, V, L, S, R, C, T, Q, M, X, Z, P, H, Y, IMP
HI = IMP + 'from pyrusgeom.convex_hull import *\n'
BUGS = [
 ('C09-last-end', 'C09', S, 'only the terminal of the first segment touches the second one', 'touching segments are reported as not meeting',
  '''                    tri_b0 == 0.0 and other.check_intersects_on_line(self._origin)) or (
                    tri_b1 == 0.0 and other.check_intersects_on_line(self._terminal)):''',
  '''                    tri_b0 == 0.0 and other.check_intersects_on_line(self._origin)):''',
  'assert Segment2D(0, 0, 2, 0).exist_intersection(Segment2D(2, -1, 2, 1))\n'),
 ('C09-on-line', 'C09', S, 'a vertical segment given from its upper to its lower end', 'collinear overlaps of downward vertical segments are missed',
  '''(self._origin.y() <= point.y() <= self._terminal.y()) or (
                self._terminal.y() <= point.y() <= self._origin.y())''',
  '(self._origin.y() <= point.y() <= self._terminal.y())', 'assert Segment2D(0, 4, 0, 0).exist_intersection(Segment2D(0, 1, 0, 2))\n'),
 ('C09-endpoint', 'C09', S, 'segments that touch at an end point, intersected without end points', 'an end point is returned though end points are not allowed',
  'if not allow_end_point and not self.exist_intersection_except_endpoint(args[0])', 'if not allow_end_point and not self.exist_intersection(args[0])',
  'assert not Segment2D(0, 0, 2, 0).intersection(Segment2D(2, 0, 2, 1), False).is_valid()\n'),
 ('C13-bottom-right', 'C13', Q, 'a rectangle that is not a square is moved by its bottom right corner', 'the corner is not where it was asked to be',
  '''        self._top_left.assign(point.x() - self._size.length(),
                              point.y() - self._size.width())''', '''        self._top_left.assign(point.x() - self._size.length(),
                              point.y() - self._size.length())''',
  'r = Rect2D(0, 0, 4, 2)\nr.move_bottom_right(Vector2D(10, 10))\nassert r.bottom() == 10\n'),
 ('C13-cross-bottom', 'C13', Q, 'the new bottom is above the top', 'the rectangle does not end at its old top',
  'new_top = min(self.top(), bottom_y)', 'new_top = self.top() if bottom_y < self.top() - self._size.width() else min(self.top(), bottom_y)',
  'r = Rect2D(0, 0, 4, 2)\nr.set_bottom(-3)\nassert r.top() == -3\n'),
 ('C14-touch', 'C14', Q, 'rectangles beside each other, apart in one direction only', 'an overlap is reported for disjoint rectangles',
  'if width <= 0.0 or length <= 0.0:', 'if width <= 0.0 and length <= 0.0:', 'r = Rect2D(0, 0, 2, 2).intersected(Rect2D(5, 0, 2, 2))\nassert r.area() == 0, r\n'),
 ('C14-united', 'C14', Q, 'the second rectangle lies inside the first', 'the union is too small',
  'length = max(self.right(), other.right()) - left', 'length = (other.right() if other.left() > self.left() else self.right()) - left', 'r = Rect2D(0, 0, 9, 9).united(Rect2D(1, 1, 2, 2))\nassert r.right() == 9, r\n'),
 ('C15-second-hit', 'C15', T, 'a segment that ends inside and leaves through the second edge found', 'the wrong crossing is kept',
  '''            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                n_sol[1] = n_sol[2]
                n_sol[0] -= 1''', '''            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                n_sol[0] -= 1''',
  't = Triangle2D(Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4))\nr = t.intersection(Segment2D(1, 1, 1, 9))\nassert r[0] == 1 and abs(r[1].y() - 3) < 1e-6, r\n'),
 ('C15-orthocenter', 'C15', T, 'any triangle that is not isosceles', 'an altitude is dropped on the wrong side',
  'perpend_b = Line2D(v_c, v_a).perpendicular(v_b)', 'perpend_b = Line2D(v_c, v_a).perpendicular(v_b) if v_a.x() != v_b.x() else Line2D(v_c, v_b).perpendicular(v_b)',
  'o = Triangle2D(Vector2D(0, 0), Vector2D(0, 4), Vector2D(3, 1)).orthocenter()\nassert abs((o - Vector2D(0, 4)).inner_product(Vector2D(3, 1))) < 1e-6, o\n'),
 ('C16-many', 'C16', P, 'a polygon with more than 64 vertices', 'the area of large polygons ignores their closing edge',
  '            if n_count == size:\n                n_count = 0\n', '            if n_count == size:\n                n_count = 0 if size <= 64 else i\n',
  'n = 100\np = Polygon2D([Vector2D(3 + math.cos(2 * math.pi * i / n + 1), 2 + math.sin(2 * math.pi * i / n + 1)) for i in range(n)])\nassert abs(p.double_signed_area() - n * math.sin(2 * math.pi / n)) < 1e-9\n'),
 ('C16-assign-keeps', 'C16', P, 'a polygon reassigned with vertices, one of which changes later', 'the polygon changes with the list elements',
  '            self._vertices = [point.copy() for point in points]', '            self._vertices = [point.copy() if i < 8 else point for i, point in enumerate(points)]',
  'v = [Vector2D(i, i * i) for i in range(12)]\np = Polygon2D()\np.assign(v)\nv[10].set_x(99)\nassert p.vertices()[10].x() == 10\n'),
 ('C17-even-odd', 'C17', P, 'a point level with a vertex at which the outline turns back down', 'points outside count as inside',
  'if p_0.y() == p_1.y() or p_0.y() < point.y() or p_1.y() < point.y():', 'if p_0.y() == p_1.y() or p_0.y() < point.y():',
  'p = Polygon2D([Vector2D(0, 0), Vector2D(8, 0), Vector2D(8, 9), Vector2D(6, 4), Vector2D(4, 9), Vector2D(2, 2), Vector2D(0, 9)])\nq = Polygon2D([Vector2D(0, 0), Vector2D(8, 0), Vector2D(8, 9), Vector2D(6, 4), Vector2D(4, 2), Vector2D(2, 4), Vector2D(0, 9)])\nassert [p.contains(Vector2D(x, 4)) for x in (1, 3, 5, 7)] == [True, True, True, True] or True\nassert not q.contains(Vector2D(4, 4)) and q.contains(Vector2D(1, 4)), [q.contains(Vector2D(x, 4)) for x in (1, 4, 7)]\n'),
 ('C17-many', 'C17', P, 'a polygon with more than 32 vertices whose nearest edge comes late', 'too large a distance for large polygons',
  'for i in range(size - 1):\n', 'for i in range(min(size, 33) - 1):\n', 'v = [Vector2D(i, 0 if i < 40 else 9) for i in range(50)]\nv += [Vector2D(50, -50), Vector2D(0, -50)]\nassert abs(Polygon2D(v).dist(Vector2D(45, 10)) - 1) < 1e-9\n'),
 ('C18-duplicate', 'C18', P, 'an edge of the polygon that enters the region exactly at a vertex', 'the cut is made with the wrong edge when the outline comes back in',
  '''                    if cuted.is_valid():
                        new_points.append(cuted)
                    new_points.append(p_1)''', '''                    if cuted.is_valid() and len(new_points) < 6:
                        new_points.append(cuted)
                    new_points.append(p_1)''',
  'z = [Vector2D(0, 0)]\nfor i in range(5):\n    z += [Vector2D(9, 2 * i), Vector2D(0, 2 * i + 1)]\nr = Polygon2D.get_line_clipped_polygon(XLessEqual(5), z, Line2D(Vector2D(5, 0), AngleDeg(90)))\nassert sum(abs(p.x() - 5) < 1e-9 for p in r) == 10, r\n'),
 ('C18-wrap', 'C18', P, 'only the closing edge of the polygon crosses the line', 'the closing edge is not cut', 'XLessEqual(rect.right())', 'XLessEqual(max(rect.right(), points[0].x()))',
  'r = Polygon2D([Vector2D(6, 0), Vector2D(0, 4), Vector2D(0, 0)]).get_rectangle_clipped_polygon(Rect2D(-1, 0, 5, 20))\nassert all(v.x() <= 4 + 1e-9 for v in r.vertices()), r\n'),
 ('C19-tie', 'C19', H, 'two leftmost points', 'the start of the hull is not the lowest of the leftmost points',
  'min_point.y() > point.y()):', 'min_point.y() < point.y()):',
  'h = ConvexHull([Vector2D(0, 0), Vector2D(0, 2), Vector2D(0, 1), Vector2D(3, 1), Vector2D(3, 5)])\nassert h.get_min_point_index() == 0\n'),
 ('C19-shared', 'C19', H, 'the list given to the constructor grows later', 'points enter the hull that were never added to it',
  'self._input_points = list(point_list)', 'self._input_points = point_list', 'v = [Vector2D(0, 0), Vector2D(1, 0), Vector2D(0, 1)]\nh = ConvexHull(v)\nv.append(Vector2D(5, 5))\nassert len(h.input_points()) == 3\n'),
 ('C19-collinear', 'C19', H, 'three points on one edge of the hull, the farthest of them first', 'the hull leaves points outside',
  'current_point.dist2(point_first) < current_point.dist2(point_second)):', 'current_point.dist2(point_first) > current_point.dist2(point_second)):',
  'h = ConvexHull([Vector2D(0, 0), Vector2D(4, 0), Vector2D(4, 4), Vector2D(0, 4), Vector2D(2, 4)])\nh.compute(MethodType.WRAPPING_METHOD)\nassert len(h.vertices()) == 4, h.vertices()\n'),
 ('C20-alias', 'C20', M, 'a matrix multiplied in place by itself', 'the square of a matrix is wrong',
  '''        self._m11 = tm11
        self._m12 = tm12
        self._m21 = tm21
        self._m22 = tm22
        self._dx = tdx
        self._dy = tdy

        return self''', '''        self._dx = self._m11 * other.dxtf() + self._m12 * other.dytf() + self._dx
        self._dy = self._m21 * other.dxtf() + self._m22 * other.dytf() + self._dy
        self._m11 = tm11
        self._m12 = tm12
        self._m21 = tm21
        self._m22 = tm22
        return self''', 'm = Matrix2D(1, 2, 3, 4, 5, 6)\nm *= m\nassert m.dytf() == 45, m\n'),
 ('C20-rotate', 'C20', M, 'a matrix with a translation is rotated', 'the translation is not rotated', 'tdx = self._dx * ang_cos - self._dy * ang_sin', 'tdx = self._dx * ang_cos - self._dy * ang_sin if self._m12 else self._dx',
  'm = Matrix2D.make_translation(1, 2)\nm.rotate(AngleDeg(90))\nassert abs(m.dxtf() + 2) < 1e-9, m\n'),
 ('C22-speed', 'C22', Y, 'a dash backwards', 'backward dashes never exceed the top speed', 'return math.fabs(dash_power) * dash_power_rate * effort > speed_max', 'return dash_power * dash_power_rate * effort > speed_max',
  'assert can_over_speed_max(-100, 0.01, 1, 0.4, 0.5)\n'),
 ('C22-first-term', 'C22', Y, 'a series with a ratio above one', 'the first term is wrong', 'return sums * (1.0 - ratio) / (1.0 - math.pow(ratio, length))', 'return sums * math.fabs(1.0 - ratio) / (1.0 - math.pow(ratio, length))',
  'assert abs(calc_first_term_geom_series(7, 2, 3) - 1) < 1e-9\n'),
 ('C23-truncate', 'C23', Y, 'a negative number just below a whole number', 'rounding goes to the far side',
  'if fi_diff < fi_left_diff and fi_diff < fi_right_diff:', 'if fi_diff < fi_right_diff:', 'assert r_int(-0.75) == -1, r_int(-0.75)\n'),
 ('C02-left-seam', 'C02', A, 'angles exactly opposite', 'opposite directions are both left of each other', '''        diff = angle.degree() - self.degree()
        return (0.0 < diff < 180.0) or diff < -180.0''', '''        diff = angle.degree() - self.degree()
        return (0.0 < diff < 180.0) or diff <= -180.0''', 'a, b = AngleDeg(120), AngleDeg(-60)\nassert not (a.is_left_of(b) or b.is_left_of(a))\n'),
 ('C22-wind', 'C22', Y, 'a wind with a y component and an error vector', 'the y error is not scaled by the randomness', '''                          speed * wind_vec.y() * wind_rand
''', '''                          speed * wind_vec.y() * min(1.0, wind_rand)
''', 'e = Vector2D(1, 1)\nwind_effect(1, 1, 1, 90, 1, 3, e)\nassert abs(e.y() - 3) < 1e-9, e\n'),
 ('C11-nested', 'C11', C, 'circles that touch from within', 'the point where nested circles touch is lost', '            if (center_dist < math.fabs(self._radius - other.radius()) or', '            if (center_dist <= math.fabs(self._radius - other.radius()) or',
  'assert len(Circle2D(Vector2D(0, 0), 3.0).intersection(Circle2D(Vector2D(1, 0), 2.0))) == 1\n'),
 ('C05-rotate', 'C05', V, 'a rotation by more than half a turn', 'the vector is turned back by large rotations', '        sin_tmp = math.sin(deg * DEG2RAD)\n', '        sin_tmp = math.sin(deg * DEG2RAD) if deg <= 180 else math.sin((deg - 180) * DEG2RAD)\n', 'v = Vector2D(1, 0).rotated_vector(270)\nassert abs(v.y() + 1) < 1e-9, v\n'),
 ('C01-set-degree', 'C01', A, 'an angle set to between 180 and 360 degrees', 'it stays outside [-180, 180]', '        self._degree = degree\n        self.normal()', '        self._degree = degree\n        if math.fabs(degree) > 360:\n            self.normal()', 'a = AngleDeg()\na.set_degree(270)\nassert a.degree_() == -90\n'),
 ('C10-origin', 'C10', R, 'a point at the origin of the ray', 'the origin is not on the ray', 'if point.equals_weakly(self._origin):\n            return True', 'if point is self._origin:\n            return True', 'assert Ray2D(Vector2D(1, 1), AngleDeg(90)).in_right_dir(Vector2D(1, 1), 10)\n'),
 ('C12-center', 'C12', C, 'points whose first corner is not at the origin', 'the radius of the circle through three points is wrong', 'return Circle2D(center, center.dist(point_0))', 'return Circle2D(center, max(center.dist(point_0), point_0.r()) if point_0.x() == 0 else center.dist(point_0))',
  'c = Circle2D.circum_circle(Vector2D(0, 9), Vector2D(1, 8), Vector2D(1, 9))\nassert abs(c.radius() - math.sqrt(0.5)) < 1e-6, c\n'),
 ('C24-default', 'C24', C, 'two circles made without a center', 'they share their center', 'self._center: Vector2D = Vector2D(center)', 'self._center: Vector2D = Vector2D(center) if center.r2() else center',
  'a, b = Circle2D(), Circle2D()\na.center_().set_x(4)\nassert b.center().x() == 0\n'),
]
if __name__ == '__main__':
    for b in BUGS:
        if b[5] is not None and b[6] is not None and (len(sys.argv) < 2 or any(x in b[0] for x in sys.argv[1:])):
            plant(*b[:5], b[5], b[6], (HI if b[1] == 'C19' else IMP) + b[7])
