"""Third batch of planted bugs (python3 tools/bugs3.py)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import plant
from bugs1 import A, V, L, S, R, C, T, Q, M, X, Z, P, H, Y, IMP
from bugs2 import HI
BUGS = [
 ('C10-threshold', 'C10', R, 'a point exactly at the limit angle', 'the limit counts as within', '.abs() < thr', '.abs() <= thr', 'assert not Ray2D(Vector2D(0, 0), AngleDeg(0)).in_right_dir(Vector2D(1, 1), 45.0)\n'),
 ('C14-inside', 'C14', Q, 'a segment that lies inside the rectangle', 'a crossing is reported for a segment that reaches no edge', 'if len(n_sol) > 0 and not other.contains(n_sol[0]):',
  'if len(n_sol) == 2 and not other.contains(n_sol[0]):', 'assert Rect2D(0, 0, 9, 9).intersection(Segment2D(1, 1, 2, 3)) == []\n'),
 ('C16-order', 'C16', P, 'vertices of which every one is more to the right than those before', 'the box does not reach the first vertex', '            if point.x() < x_min:', '            elif point.x() < x_min:',
  'b = Polygon2D([Vector2D(1, 0), Vector2D(2, 3), Vector2D(5, 1)]).get_bounding_box()\nassert b.left() == 1, b\n'),
 ('C18-top-border', 'C18', P, 'a vertex exactly on the upper border', 'vertices on the border are thrown away', 'return point.y() >= self._thr', 'return point.y() > self._thr',
  'r = Polygon2D.get_line_clipped_polygon(YMoreEqual(1), [Vector2D(0, 1), Vector2D(4, 1), Vector2D(2, -5)], Line2D(Vector2D(0, 1), AngleDeg(0)))\nassert len(r) == 4, r\n'),
 ('C18-first', 'C18', P, 'only the closing edge leaves the region', 'the closing edge is compared with the wrong vertex', '            if index_1 >= len(points):\n                index_1 = 0\n\n            p_0', '            if index_1 >= len(points):\n                index_1 = 0 if in_rectangle[0] else index_0\n\n            p_0',
  'r = Polygon2D.get_line_clipped_polygon(XLessEqual(5), [Vector2D(9, 0), Vector2D(1, 4), Vector2D(1, 0)], Line2D(Vector2D(5, 0), AngleDeg(90)))\nassert sum(abs(p.x() - 5) < 1e-9 for p in r) == 2, r\n'),
 ('C19-many', 'C19', H, 'a hull with more than eleven corners', 'the hull is cut short', 'for _ in range(point_size + 1):', 'for _ in range(min(point_size + 1, 12)):',
  'h = ConvexHull([Vector2D(20 * math.cos(.1 + k * math.pi / 10), 20 * math.sin(.1 + k * math.pi / 10)) for k in range(20)])\nh.compute(MethodType.WRAPPING_METHOD)\nassert len(h.vertices()) == 20, len(h.vertices())\n'),
 ('C20-two-numbers', 'C20', M, 'a point given as two numbers and a matrix that is not symmetric', 'the wrong coefficient is used', 'self._m21 * args[0] + self._m22 * args[1] + self._dy)', 'self._m12 * args[0] + self._m22 * args[1] + self._dy)',
  'assert Matrix2D(1, 2, 3, 4, 0, 0).transform(1, 0) == Vector2D(1, 3)\n'),
 ('C20-mirror', 'C20', M, 'a matrix that mirrors', 'mirroring matrices count as not invertible', 'return math.fabs(self.det()) > EPSILON', 'return self.det() > EPSILON', 'assert Matrix2D.make_scaling(-1, 1).invertible()\n'),
 ('C21-area-wrap', 'C21', X, 'a sector over the back, wider than half a turn', 'the area of wide sectors is too small', 'div = (self._end - self._start).degree_()\n        if div < 0.0:\n            div += 360.0\n        return circle_area',
  'div = (self._end - self._start).degree_()\n        if div < 0.0:\n            div = -div\n        return circle_area', 'assert abs(Sector2D(Vector2D(0, 0), 0, 1, 0, -90).area() - .75 * math.pi) < 1e-9\n'),
 ('C22-backward', 'C22', Y, 'a dash to the back on the negative side', 'dashes to the left back are too strong', '1.0 - (math.fabs(rel_dash_dir) - 90.0) / 90.0))', '1.0 - (rel_dash_dir - 90.0) / 90.0))', 'assert abs(dir_rate(-135, .6, .4) - dir_rate(135, .6, .4)) < 1e-9\n'),
 ('C23-unquantize', 'C23', Y, 'a value above the middle between two multiples', 'the bound belongs to the multiple below', 'return (r_int(dist / qstep) + 0.5) * qstep', 'return (int(dist / qstep) + 0.5) * qstep', 'assert abs(unquantize_max(0.19, 0.1) - 0.25) < 1e-9\n'),
 ('C17-short-ray', 'C17', P, 'a wide polygon whose first vertex is close to the point', 'the test ray ends inside the polygon', '(self._vertices[0] - point).r()) * 3.0', '(self._vertices[0] - point).r()) * 0.5',
  'assert not Polygon2D([Vector2D(0, 2), Vector2D(10, 0), Vector2D(10, 4), Vector2D(0, 3), Vector2D(-9, 4), Vector2D(-9, 0)]).contains(Vector2D(0, 1)) == Polygon2D([Vector2D(1, 0), Vector2D(20, 0), Vector2D(20, 1), Vector2D(1, 1)]).contains(Vector2D(2, .5))\n'),
 ('C15-incenter', 'C15', T, 'a triangle whose second corner is its lowest', 'the incenter is not equidistant', 'bisect_b = Line2D(v_b, AngleDeg.bisect(b_a.th(), b_c.th()))', 'bisect_b = Line2D(v_b, AngleDeg.bisect(b_a.th(), b_c.th()) if v_b.y() >= v_a.y() or v_b.y() >= v_c.y() else AngleDeg.bisect(b_c.th(), b_a.th()) + 1.0)',
  't = Triangle2D(Vector2D(0, 4), Vector2D(0, 0), Vector2D(3, 4))\nassert abs(t.incenter().x() - 1) < 1e-6, t.incenter()\n'),
 ('C06-copy-kw', 'C06', L, 'a line copied by keyword', 'the copy is another line', "self._b = kwargs['l'].b()", "self._b = kwargs['l'].a()", 'assert Line2D(l=Line2D(1, 2, 3)).b() == 2\n'),
]
if __name__ == '__main__':
    for b in BUGS:
        if len(sys.argv) < 2 or any(x in b[0] for x in sys.argv[1:]):
            plant(*b[:5], b[5], b[6], (HI if b[1] == 'C19' else IMP) + b[7])
