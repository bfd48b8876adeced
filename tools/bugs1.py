"""First batch of planted bugs (python3 tools/bugs1.py)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import plant
A, V, L, S, R, C, T, Q, M, X, Z, P, H, Y = ('angle_deg.py', 'vector_2d.py', 'line_2d.py', 'segment_2d.py', 'ray_2d.py', 'circle_2d.py', 'triangle_2d.py', 'rect_2d.py',
                                            'matrix_2d.py', 'sector_2d.py', 'size_2d.py', 'polygon_2d.py', 'convex_hull.py', 'soccer_math.py')
IMP = 'from pyrusgeom.geom_2d import *\nfrom pyrusgeom.soccer_math import *\nimport math\n'
BUGS = [
 ('C01-fmod-limit', 'C01', A, 'a degree value between 540 and 720', 'angles between 540 and 720 degrees are left outside [-180, 180]',
  'if self._degree < -360.0 or 360.0 < self._degree:', 'if self._degree < -360.0 or 720.0 < self._degree:', 'assert AngleDeg(630).degree_() == -90, AngleDeg(630).degree_()\n'),
 ('C01-imul', 'C01', A, 'an in-place multiplication by a negative number below -1', 'the product is not normalised',
  '        self._degree *= other\n        self.normal()', '        self._degree *= other\n        if other > 1:\n            self.normal()', 'a = AngleDeg(100)\na *= -2\nassert a.degree_() == 160, a.degree_()\n'),
 ('C02-within-wide', 'C02', A, 'an arc wider than half a turn, asked for its right end', 'the right end of a wide arc is not within it',
  'if self.is_left_equal_of(right) or left.is_left_equal_of(self):', 'if self.is_left_of(right) or left.is_left_of(self):', 'assert AngleDeg(120).is_within(AngleDeg(-100), AngleDeg(120))\n'),
 ('C02-bisect', 'C02', A, 'left more than 180 and at most 190 degrees below right', 'the bisector points the opposite way',
  'if (0.0 < diff < 180.0) or diff < -180.0:\n            return result', 'if (0.0 < diff < 180.0) or diff < -190.0:\n            return result', 'a, b = AngleDeg(-95), AngleDeg(90)\nassert abs(AngleDeg.bisect(a, b).cos() - math.cos(math.radians(177.5))) < 1e-6, AngleDeg.bisect(a, b)\n'),
 ('C03-acos', 'C03', A, 'a cosine between -1 and -0.9999', 'the angle is 180 instead of e.g. 179.4', 'elif cosine <= -1.0:', 'elif cosine <= -0.9999:', 'c = math.cos(math.radians(179.5))\nassert abs(AngleDeg.acos_deg(c) - 179.5) < 1e-6\n'),
 ('C03-atan2', 'C03', A, 'a vector whose first component is small but not vanishing', 'the direction is 0', 'if math.fabs(x_val) < EPSILON and math.fabs(y_val) < EPSILON:', 'if math.fabs(x_val) < EPSILON and math.fabs(y_val) < 2e-4:',
  'assert abs(AngleDeg.atan2_deg(1e-4, 0) - 90) < 1e-6\n'),
 ('C04-weak-equality', 'C04', V, 'both coordinates differ by more than half the tolerance', 'weak equality is refused', 'return math.fabs(self._x - other.x()) < EPSILON and math.fabs(self._y - other.y()) < EPSILON', 'return math.fabs(self._x - other.x()) + math.fabs(self._y - other.y()) < EPSILON', 'assert Vector2D(0, 0).equals_weakly(Vector2D(7e-7, 7e-7))\n'),
 ('C04-abs-alias', 'C04', V, 'a vector with no negative coordinate, and a later change of the result', 'the absolute vector is the vector itself', 'return Vector2D(abs(self._x), abs(self._y))', 'if self._x >= 0 and self._y >= 0:\n            return self\n        return Vector2D(abs(self._x), abs(self._y))', 'v = Vector2D(1, 2)\nu = v.abs()\nu.set_x(9)\nassert v.x() == 1\n'),
 ('C05-set-length', 'C05', V, 'the requested length is 0', 'the vector keeps its length', 'if mag > EPSILON:', 'if mag > EPSILON and length:', 'v = Vector2D(3, 4)\nv.set_length(0)\nassert v.r() == 0\n'),
 ('C06-get-y', 'C06', L, 'a line whose second coefficient is between 1e-6 and 1e-4', 'the error value instead of the coordinate', 'if math.fabs(self._b) < EPSILON:', 'if math.fabs(self._b) < EPSILON * 100:', 'assert abs(Line2D(1.0, 5e-5, -1.0).get_y(0.0) - 20000) < 1e-6\n'),
 ('C06-dist', 'C06', L, 'a line given by coefficients that are not of unit length and a negative side', 'squared distance', 'return (delta * delta) / (self._a * self._a + self._b * self._b)', 'return (delta * delta) / math.sqrt(self._a * self._a + self._b * self._b)', 'assert abs(Line2D(3.0, 4.0, 0.0).dist2(Vector2D(3, 4)) - 25) < 1e-9\n'),
 ('C07-bisector', 'C07', L, 'two points closer than 1e-2 but farther than 1e-6', 'a line that is not the bisector', 'if (math.fabs(point2.x() - point1.x()) < EPSILON and\n                math.fabs(point2.y() - point1.y()) < EPSILON):', 'if (math.fabs(point2.x() - point1.x()) < 0.01 and\n                math.fabs(point2.y() - point1.y()) < 0.01):',
  'a, b = Vector2D(0, 0), Vector2D(0.005, 0.0)\nl = Line2D.perpendicular_bisector(a, b)\nassert abs(l.dist(Vector2D(0.0025, 7))) < 1e-6\n'),
 ('C07-intersection', 'C07', L, 'the determinant of the two lines is a small negative number', 'no intersection', 'if math.fabs(tmp) < EPSILON:', 'if -1e-3 < tmp < EPSILON:', 'p = Line2D(0.01, 1.0, 0.0).intersection(Line2D(0.0, 0.0 - 0.01, 0.01))\nassert p.is_valid()\n'),
 ('C08-dist-segments', 'C08', S, 'the closest point is the second end of the first segment', 'too large a distance between two segments', 'other.dist(self._origin),\n                       other.dist(self._terminal))', 'other.dist(self._origin))', 'assert Segment2D(0, 5, 0, 1).dist(Segment2D(-3, 0, 3, 0)) == 1\n'),
 ('C08-nearest', 'C08', S, 'a point beyond the far end by very little', 'the nearest point lies beyond the segment', 'if inner_product >= len_square:', 'if inner_product >= len_square + 0.001:', 'assert Segment2D(0, 0, 0.01, 0).nearest_point(Vector2D(0.05, 0)).x() <= 0.01\n'),
 ('C08-on-line', 'C08', S, 'a nearly vertical extent, i.e. a very short horizontal segment', 'far points count as on the segment', 'if self._origin.x() == self._terminal.x():', 'if math.fabs(self._origin.x() - self._terminal.x()) < 0.001:', 'assert not Segment2D(0, 0, 0.0005, 0).on_segment(Vector2D(3, 0))\n'),
 ('C10-ray-ray', 'C10', R, 'two rays of which only the other one points away from the crossing', 'a crossing behind the origin of the other ray is returned', 'if not self.in_right_dir(tmp_sol) or not other.in_right_dir(tmp_sol):', 'if not self.in_right_dir(tmp_sol) and not other.in_right_dir(tmp_sol):', 'assert not Ray2D(Vector2D(0, 0), AngleDeg(0)).intersection(Ray2D(Vector2D(5, 1), AngleDeg(90))).is_valid()\n'),
 ('C11-tangent', 'C11', C, 'a line that almost touches the circle', 'one point off the circle instead of two crossings', 'if math.fabs(delta) < EPSILON:', 'if math.fabs(delta) < 0.01:', 'r = Circle2D(Vector2D(0, 0), 1.0).intersection(Line2D(Vector2D(0, 0.9995), AngleDeg(0)))\nassert len(r) == 2\n'),
 ('C11-segment-order', 'C11', C, 'both crossings of the line are outside the segment', 'a point outside the segment is returned',
  '            if len(sol_list) > 1 and not other.contains(sol_list[1]):\n                del sol_list[1]\n\n            if len(sol_list) > 0 and not other.contains(sol_list[0]):\n                del sol_list[0]\n',
  '            if len(sol_list) > 0 and not other.contains(sol_list[0]):\n                del sol_list[0]\n\n            if len(sol_list) > 1 and not other.contains(sol_list[1]):\n                del sol_list[1]\n', 'assert Circle2D(Vector2D(0, 0), 5.0).intersection(Segment2D(-1, 1, 1, 2)) == []\n'),
 ('C12-contains-test', 'C12', C, 'a small triangle', 'no point is inside the circumscribed circle', 'if math.fabs(calc_area) < 1.0e-10:', 'if math.fabs(calc_area) < 1.0e-2:', 'assert Circle2D.circum_circle_contains(Vector2D(0.02, 0.02), Vector2D(0, 0), Vector2D(0.06, 0), Vector2D(0, 0.06))\n'),
 ('C12-border', 'C12', C, 'a point exactly at the radius', 'the border counts as inside', 'return self._center.dist2(point) < self._radius * self._radius', 'return self._center.dist2(point) <= self._radius * self._radius', 'assert not Circle2D(Vector2D(0, 0), 5.0).contains(Vector2D(3, 4))\n'),
 ('C13-set-left', 'C13', Q, 'the left edge is moved (the right edge is read after the corner has moved)', 'the right edge moves as well', '        new_right = max(self.right(), left_x)\n        self._top_left.set_x(new_left)', '        self._top_left.set_x(new_left)\n        new_right = max(self.right(), left_x)', 'r = Rect2D(0, 0, 4, 2)\nr.set_left(1)\nassert r.right() == 4\n'),
 ('C13-size-valid', 'C13', Z, 'a size with one vanishing extent', 'a flat rectangle counts as proper', 'return self._length > 0.0 and self._width > 0.0', 'return self._length > 0.0 or self._width > 0.0', 'assert not Size2D(3, 0).is_valid()\n'),
 ('C14-contains', 'C14', Q, 'a point exactly on the bottom edge', 'it is not contained', 'return self.left() <= point.x() <= self.right() and self.top() <= point.y() <= self.bottom()', 'return self.left() <= point.x() <= self.right() and self.top() <= point.y() < self.bottom()', 'assert Rect2D(0, 0, 4, 2).contains(Vector2D(1, 2))\n'),
 ('C14-ray-order', 'C14', Q, 'a ray pointing away from the rectangle', 'a point behind the ray is returned',
  '            if len(n_sol) > 1 and not other.in_right_dir(n_sol[1], 1.0):\n                del n_sol[1]\n            \n            if len(n_sol) > 0 and not other.in_right_dir(n_sol[0], 1.0):\n                del n_sol[0]\n',
  '            if len(n_sol) > 0 and not other.in_right_dir(n_sol[0], 1.0):\n                del n_sol[0]\n\n            if len(n_sol) > 1 and not other.in_right_dir(n_sol[1], 1.0):\n                del n_sol[1]\n', 'assert Rect2D(0, 0, 4, 2).intersection(Ray2D(Vector2D(6, 1), AngleDeg(0))) == []\n'),
 ('C15-contains-border', 'C15', T, 'a point on one particular side of a clockwise triangle, asked of the static function', 'it is not contained',
  'outer2 <= 0.0 and outer3 <= 0.0):\n            return True\n        return False\n\n    def __repr__', 'outer2 <= 0.0 and outer3 < 0.0):\n            return True\n        return False\n\n    def __repr__', 'assert Triangle2D.tri_contains(Vector2D(0, 0), Vector2D(0, 2), Vector2D(2, 0), Vector2D(1, 0))\n'),
 ('C15-ccw', 'C15', T, 'three points on one line', 'they count as counter-clockwise', 'return Triangle2D.double_signed_area_st(v_a, v_b, v_c) > 0.0', 'return Triangle2D.double_signed_area_st(v_a, v_b, v_c) >= 0.0', 'assert not Triangle2D.tri_ccw(Vector2D(0, 0), Vector2D(1, 1), Vector2D(2, 2))\n'),
 ('C20-inverse', 'C20', M, 'a matrix with a small determinant', 'the inverse is the identity', 'if determinant == 0.0:', 'if math.fabs(determinant) < 1e-3:', 'p = Matrix2D.make_scaling(0.02, 0.02).inverted().transform(Vector2D(0.02, 0.04))\nassert abs(p.x() - 1) < 1e-9\n'),
 ('C21-circumference', 'C21', X, 'an arc crossing +-180 or wider than half a turn', 'the length of the outer arc is negative', '        if div < 0.0:\n            div += 360.0\n        return (2.0 * self._max_r', '        return (2.0 * self._max_r', 'assert Sector2D(Vector2D(0, 0), 1, 2, AngleDeg(0), AngleDeg(-90)).get_circumference_max() > 0\n'),
 ('C21-inner-border', 'C21', X, 'a point exactly at the smaller radius', 'it is not contained', 'return (self._min_r * self._min_r <= delta <=', 'return (self._min_r * self._min_r < delta <=', 'assert Sector2D(Vector2D(0, 0), 1, 2, AngleDeg(-10), AngleDeg(10)).contains(Vector2D(1, 0))\n'),
 ('C22-many-steps', 'C22', Y, 'more than 100 steps and a decay close to 1', 'the limit instead of the travelled distance', '    return initial_speed * (1.0 - math.pow(decay, n_step)) / (1.0 - decay)', '    if n_step > 100:\n        return initial_speed / (1.0 - decay)\n    return initial_speed * (1.0 - math.pow(decay, n_step)) / (1.0 - decay)', 'assert abs(inertia_n_step_distance(1.0, 200, 0.999) - sum(0.999 ** i for i in range(200))) < 1e-6\n'),
 ('C23-half', 'C23', Y, 'a positive number exactly between two integers', 'it is rounded down', 'if fi_diff < fi_left_diff and fi_diff < fi_right_diff:', 'if fi_diff < fi_left_diff and fi_diff <= fi_right_diff:', 'assert r_int(2.5) == 3\n'),
 ('C23-range-down', 'C23', Y, 'a falling range that reaches its end exactly', 'the end is included', 'if step < 0 and start <= stop:', 'if step < 0 and start < stop:', 'assert list(f_range(3, 0, -1)) == [3, 2, 1]\n'),
 ('C24-sector', 'C24', X, 'the angle handed to a sector is changed later', 'the sector changes with it', '        self._start = AngleDeg(start)\n        self._end = AngleDeg(end)\n        self.is_valid = True', '        self._start = start if isinstance(start, AngleDeg) else AngleDeg(start)\n        self._end = AngleDeg(end)\n        self.is_valid = True', 'a = AngleDeg(10)\ns = Sector2D(Vector2D(0, 0), 1, 2, a, AngleDeg(20))\na += 5\nassert s.angle_left_start().degree() == 10\n'),
 ('C24-circle', 'C24', C, 'the center handed to a circle on reassignment is changed later', 'the circle moves with it', '        self._center = Vector2D(center)\n        self._radius = radius', '        self._center = center\n        self._radius = radius', 'p = Vector2D(1, 1)\nc = Circle2D(Vector2D(0, 0), 1.0)\nc.assign(p, 2.0)\np.set_x(7)\nassert c.center().x() == 1\n'),
 ('C16-box', 'C16', P, 'the first vertex is the leftmost one and x grows from vertex to vertex', 'the bounding box misses the left edge', '            if point.x() < x_min:', '            elif point.x() < x_min:', 'b = Polygon2D([Vector2D(0, 0), Vector2D(1, 5), Vector2D(2, 1)]).get_bounding_box()\nassert b.left() == 0\n'),
 ('C17-closing-edge', 'C17', P, 'a triangle whose closing edge is the nearest one', 'too large a distance', 'if size >= 3:\n', 'if size > 3:\n', 'assert Polygon2D([Vector2D(0, 0), Vector2D(0, 4), Vector2D(4, 0)]).dist(Vector2D(2, -1)) == 1\n'),
]
if __name__ == '__main__':
    for b in BUGS:
        if len(sys.argv) < 2 or any(x in b[0] for x in sys.argv[1:]):
            plant(*b[:5], b[5], b[6], IMP + b[7])
