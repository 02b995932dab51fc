"""Tangent points: on the boundary, in the extreme directions of the obstacle, left one first; none for inner and enclosed points."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import combo, gen, ref
from pbt.checks.c10 import blocked_directions
from pbt.core import Skip, Test, require

RULE = 'exterior point with tangents, or enclosed exterior point'


def check(case, rec):
    from obstacles import Frame
    spec, y = case['o'], case['x']
    pose = spec.get('pose')
    o = gen.build(spec)
    if case.get('k') is not None:
        # Reference point on the boundary of the kernel
        k = np.asarray(ref.kernel(spec['v']).exterior.coords)
        if len(k):
            o.set_xr(k[case['k'] % len(k)])
    local = dict(spec, pose=None)
    arc = blocked_directions(local, y)
    if arc == 'unclear':
        rec.label('unclear')
        return
    x = ref.fwd(pose, y)
    tps = o.tangent_points(x)
    if isinstance(arc, str):
        rec.label(arc)
        rec.hit(arc == 'enclosed')
        require(len(tps) == 0, 'tangent points {} for a point which is {}', [list(t) for t in tps], arc)
        return
    rec.hit()
    require(len(tps) == 2, '{} tangent points for a free exterior point', len(tps))
    lo, hi = arc
    rec.label('wide', hi - lo > math.pi)
    g = gen.region(local, 256)
    for t, limit, name in zip(tps, (hi, lo), ('first (left)', 'second (right)')):
        t = ref.inv(pose, t)
        tol = case.get('tol', 1e-6)
        # Boundary point of the obstacle
        if spec['t'] == 'E':
            f = math.hypot(t[0] / spec['a'][0], t[1] / spec['a'][1])
            require(abs(f - 1) < tol, '{} tangent point {} is not on the boundary', name, list(t))
        else:
            require(ref.boundary_distance(spec['v'], t) < 1e-9, '{} tangent point {} is not on the boundary', name, list(t))
        d = t - np.array(y)
        if np.linalg.norm(d) < 1e-6:
            continue
        off = abs((math.atan2(d[1], d[0]) - limit + math.pi) % (2 * math.pi) - math.pi)
        require(off < 10 * tol or off * np.linalg.norm(d) < tol, '{} tangent point {} is {:.2e} rad off the extreme direction (seen from {}, obstacle frame)', name, list(t), off, y)


@st.composite
def cases(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 20)
    m = b.int(0, 4)
    if m == 4 and o['t'] != 'E':
        # Very close to a vertex
        v, q = o['v'][b.int(0, len(o['v']) - 1)], 2. ** -b.int(5, 12)
        return {'o': o, 'x': [v[0] + q * b.sym(3), v[1] + q * b.sym(3)]}
    x = b.point(5) if m else b.point(1)
    if m == 3 and o['t'] != 'E':
        v = o['v']
        i, s = b.int(0, len(v) - 1), b.coord(3)
        x = [v[i - 1][j] + s * (v[i][j] - v[i - 1][j]) for j in (0, 1)]
    if m == 3 and o['t'] == 'E':
        # (Almost) vertical and horizontal tangents
        e = [0, 0, 1e-7, -1e-7, 1e-5, 1e-4, -1e-4, 1e-3][b.int(0, 7)]
        k = b.int(0, 1)
        x[k] = o['a'][k] * (1 - 2 * b.int(0, 1)) + e
        # The code treats tangents within 1e-5 as vertical
        return {'o': o, 'x': x, 'tol': 1e-4}
    return {'o': o, 'x': x}


@st.composite
def with_xr(draw, strategy):
    return dict(draw(strategy), k=draw(st.sampled_from([None, 0, 1, 2, 3, 4])))


def combination(case, rec):
    """Combinations: seen from a point, no direction of the region is opposite to that of the reference point (it is starshaped)."""
    o, _ = combo.build(case)
    combo.warm_up(case, o)
    V = [np.array(p) for v in combo.parts(case) for p in v]
    k = np.array(case['xr'])
    for p in case['p']:
        want = combo.location(case, p)
        if want not in (-1, 1) or min(ref.boundary_distance(v, p) for v in combo.parts(case)) < 1e-6:
            rec.label('boundary')
            continue
        x = np.array(p, float)
        tps = o.tangent_points(x)
        if want == -1:
            require(len(tps) == 0, 'tangent points {} for the interior point {}', [list(t) for t in tps], p)
            continue
        require(len(tps) == 2, '{} tangent points for the exterior point {}', len(tps), p)

        def angle(t):
            d, e = t - x, k - x
            return math.atan2(e[0] * d[1] - e[1] * d[0], e.dot(d))
        A = [angle(v) for v in V]
        if max(abs(a) for a in A) > math.pi - 1e-6:
            continue
        rec.hit()
        rec.label('wide', max(A) - min(A) > math.pi)
        for t, limit, name in zip(tps, (max(A), min(A)), ('first (left)', 'second (right)')):
            require(min(np.linalg.norm(t - v) for v in V) < 1e-9, '{} tangent point {} is no vertex', name, list(t))
            require(abs(angle(t) - limit) < 1e-9, '{} tangent point {} is {:.2e} rad off the extreme direction (seen from {})', name, list(t), angle(t) - limit, p)


P = gen.pose()
TESTS = [
    Test('ellipse', cases(gen.ellipse_spec(P)), check, 8000),
    Test('starshaped', gen.off_center(with_xr(cases(gen.star_spec(P))), ['x']), check, 6000),
    Test('polygon', gen.off_center(cases(gen.polygon_spec(P)), ['x']), check, 9000),
    Test('pocket', cases(gen.polygon_spec(P, gen.pocket_vertices())), check, 4000),
    Test('combination', combo.with_points(), combination, 3000),
]
