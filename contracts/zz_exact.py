"""Operations that only add, subtract, compare, halve and multiply once: on small dyadic inputs their double precision results
are exact, so that a run can decide strict and non-strict comparisons at the very border (no rounding tolerance)."""
import re
from pyvc.contract import REGISTRY

EXACT = re.compile(r'''ang\.(?!div|idiv|normalized|bisect_mirror|seam).*
|vec\.equals_weakly|line\.(points|points_kw|is_parallel|perpendicular|eq|eq_self)
|seg\.(contains|equals_weakly|is_valid)|circle\.contains
|size\.(ctor0|eq)|rect\.(?!intersection).*
|tri\.(area|signed_area|signed_area_st|double_signed_area|double_signed_area_st|ccw|tri_ccw|areas|contains|tri_contains)
|mat\.(reset|ctor0|det|transform1|transform2|mul_vec|transform_vec|mul|imul|imul_self|translate|scale)
|sm\.f_range.*''', re.X)
for c in REGISTRY:
    if getattr(c, 'exact', None) is False and EXACT.fullmatch(c.id) and (not c.id.startswith('ang.') or c.props[0] in ('C01', 'C02')):
        c.exact = True
