"""The kernel of a starshaped obstacle: exactly the points which see the whole obstacle; the default reference point is in it."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import combo, gen, ref
from pbt.core import HarnessError, Skip, Test, require

RULE = 'obstacle is not convex and has a kernel with positive area; or the kernel is empty'


def sees_all(v, p):
    """Exact: p is to the left of (or on) all the edges of the counterclockwise polygon v."""
    return all(ref.side(v[i - 1], v[i], p) >= 0 for i in range(len(v)))


def width(k):
    return 2 * k.area / k.length if k.length else 0


def check(case, rec):
    from obstacles import Frame
    spec, pose = case['o'], case['o'].get('pose')
    v = ref.ccw(spec['v'])
    want = ref.kernel(v)
    sliver = 0 < want.area and width(want) < 1e-5
    if spec.get('xr') is None and (want.is_empty or width(want) < 1e-4):
        # The default reference point needs a kernel
        spec = dict(spec, xr=[0., 0.])
    o = gen.build(spec)
    got = o.kernel(Frame.OBSTACLE)
    require(got.is_valid, 'invalid kernel')
    if sliver:
        raise Skip()
    if want.is_empty:
        # There might be a single point or segment
        if ref.kernel(v, -1e-6).is_empty:
            require(got.is_empty, 'polygon is not starshaped, but the kernel has the area {}', got.area)
            rec.hit()
            rec.label('empty')
        return
    rec.hit(not ref.is_convex(v))
    rec.label('nonconvex', not ref.is_convex(v))
    require(got.geom_type == 'Polygon' and not got.is_empty, 'kernel is {}, expected area {}', got.wkt, want.area)
    d = got.exterior.hausdorff_distance(want.exterior)
    require(d < 1e-6, 'kernel differs by {:.2e} (area {}, expected {})', d, got.area, want.area)
    # Independent of the construction
    for p in case['p']:
        dist = got.exterior.distance(sg.Point(p))
        if dist > 1e-7:
            require(got.contains(sg.Point(p)) == sees_all(v, p), '{} is reported to be {}the kernel', p, 'in ' if got.contains(sg.Point(p)) else 'outside of ')
    g = sg.Polygon(ref.fwd_all(pose, np.asarray(want.exterior.coords)))
    d = o.kernel().exterior.hausdorff_distance(g.exterior)
    require(d < 1e-6, 'kernel in the global frame differs by {:.2e}', d)
    if spec.get('xr') is None:
        xr = o.xr(Frame.OBSTACLE)
        require(want.buffer(1e-9).contains(sg.Point(xr)), 'default reference point {} is not in the kernel', list(xr))
        require(o.interior_point(o.xr()), 'default reference point {} is not an interior point', list(xr))


def ellipse(case, rec):
    spec = case['o']
    o = gen.build(spec)
    g = gen.region(spec, 256)
    gap = 0.013 * max(spec['a']) + 1.5e-3
    k = o.kernel()
    require(k.buffer(gap).covers(g) and g.buffer(gap).covers(k), 'kernel of the ellipse is not the ellipse')
    rec.hit()


def combination(case, rec):
    """The kernel of a combination is the one of the union."""
    o, _ = combo.build(case)
    combo.warm_up(case, o)
    U = combo.union(case)
    if U.geom_type != 'Polygon' or U.interiors:
        raise HarnessError('the union is not starshaped')
    # Vertices of the union are only known up to rounding
    v = ref.ccw([list(p) for p in U.exterior.simplify(1e-9).coords[:-1]])
    if min(np.linalg.norm(np.subtract(v[i], v[i - 1])) for i in range(len(v))) < 1e-4:
        raise Skip()
    want = ref.kernel(v)
    if width(want) < 1e-3:
        raise Skip()
    got = o.kernel()
    require(got.geom_type == 'Polygon' and got.is_valid, 'kernel of the combination is {}', got.wkt)
    rec.hit(not ref.is_convex(v))
    d = got.exterior.hausdorff_distance(want.exterior)
    require(d < 1e-4, 'kernel of the combination differs by {:.2e} (area {}, expected {})', d, got.area, want.area)
    require(got.buffer(1e-4).contains(sg.Point(case['xr'])), 'reference point {} is not in the kernel', case['xr'])


@st.composite
def cases(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 24)
    return {'o': o, 'p': [b.point(1.5, 16) for _ in range(6)]}


P = gen.pose()
TESTS = [
    Test('starshaped', gen.off_center(cases(gen.star_spec(P))), check, 5000),
    Test('starshaped_thin', cases(gen.star_spec(P, gen.star_vertices(nmin=6, nmax=14, clearance=0.01))), check, 3000),
    Test('polygon', gen.off_center(cases(gen.star_spec(P, gen.any_vertices()))), check, 5000),
    Test('relabeled', cases(gen.star_spec(P, gen.star_vertices().flatmap(gen.relabel))), check, 2000),
    Test('combination', combo.with_points(), combination, 3000),
    Test('ellipse', cases(gen.ellipse_spec(P)), ellipse, 300),
]
