"""The admissible kernel for excluding a point: exactly the points with an unobstructed ray from the excluded point."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Skip, Test, require

RULE = 'excluded point is exterior and candidate kernel points exist on both sides of the admissibility limit; or the point is enclosed'


def blocked_directions(spec, x):
    """('inside' | 'enclosed' | 'unclear') or the directions (lo, hi) from x which hit the obstacle."""
    loc, d = gen.location(spec, x)
    if d < 1e-6:
        return 'unclear'
    if loc < 0:
        return 'inside'
    if spec['t'] == 'E':
        y = ref.inv(spec.get('pose'), x)
        a = np.array(spec['a'])
        p = y / a
        r, mid = math.hypot(*p), math.atan2(-p[1], -p[0])
        half = math.asin(min(1 / r, 1))
        d1, d2 = [ref.rot(spec.get('pose'), a * [math.cos(mid + s * half), math.sin(mid + s * half)]) for s in (-1, 1)]
        lo = math.atan2(d1[1], d1[0])
        return lo, lo + ref.ccw_angle(d1, d2)
    lo, hi, close = ref.angular_range(gen.global_vertices(spec), x)
    if abs(close) > 1e-3:
        return 'unclear'
    if abs(hi - lo - 2 * math.pi) < 1e-5:
        return 'unclear'
    return 'enclosed' if hi - lo > 2 * math.pi else (lo, hi)


def check(case, rec):
    import starshaped_hull as sh
    from utils import Cone
    spec, x = case['o'], case['x']
    o = gen.build(spec)
    arc = blocked_directions(spec, x)
    if arc == 'unclear':
        rec.label('unclear')
        return
    ak = sh.admissible_kernel(o, np.array(x))
    if isinstance(arc, str):
        rec.label(arc)
        rec.hit(arc == 'enclosed')
        require(ak is None, 'admissible kernel {} for a point which is {}', ak, arc)
        return
    require(ak is not None, 'no admissible kernel for a free exterior point')
    lo, hi = arc
    rec.label('blocked more than 180 degrees', hi - lo > math.pi)
    seen = set()
    pol = ak.polygon() if case['polygon'] else None
    cands = list(case['k'])
    # close to the limits as well
    for a, r, e in case['near']:
        t = (lo, hi)[a] + math.pi + e
        cands.append([x[0] + r * math.cos(t), x[1] + r * math.sin(t)])
    for k in cands:
        d = [x[0] - k[0], x[1] - k[1]]
        if math.hypot(*d) < 1e-3:
            continue
        off = (math.atan2(d[1], d[0]) - lo) % (2 * math.pi)  # blocked if 0 < off < hi - lo
        if min(off, abs(off - (hi - lo)), 2 * math.pi - off) < 1e-5:
            continue
        want = off > hi - lo
        seen.add(want)
        got = ak.point_in_cone(np.array(k))
        require(bool(got) == want, 'kernel candidate {} is {}admissible, but reported as {}', k, '' if want else 'not ', got)
        if pol is not None:
            require(pol.intersects(sg.Point(k)) == want, 'kernel candidate {} is {}admissible, polygon of the cone says {}', k, '' if want else 'not ',
                    not want)
    rec.hit(len(seen) == 2)


@st.composite
def cases(draw, obstacles):
    o = draw(obstacles)
    b = gen.Raw(draw, 80)
    k = [b.point(6) for _ in range(8)]
    near = [[b.int(0, 1), b.int(1, 40) / 8, (1e-4 + b.int(0, 20) / 50) * (1 - 2 * b.int(0, 1))] for _ in range(4)]
    x = b.point(5) if b.int(0, 3) else b.point(1.5)
    mode = b.int(0, 3)
    if mode == 1 and o.get('pose'):
        x = [x[0] + o['pose'][0], x[1] + o['pose'][1]]
    if mode == 2:
        x = [v / 8 for v in x]
        if o.get('pose'):
            x = [float(v) for v in ref.fwd(o['pose'], x)]
    if mode == 3 and o['t'] != 'E':
        # in line with an edge
        v = o['v']
        i, s = b.int(0, len(v) - 1), b.coord(3)
        x = [float(c) for c in ref.fwd(o.get('pose'), [v[i - 1][j] + s * (v[i][j] - v[i - 1][j]) for j in (0, 1)])]
    return {'o': o, 'x': x, 'k': k, 'near': near, 'polygon': b.int(0, 1) == 0}


def boundary(case, rec):
    """No point in the plane makes the function fail: vertices, points on edges."""
    import starshaped_hull as sh
    spec = case['o']
    o = gen.build(spec)
    v = spec['v']
    i, s = case['i'] % len(v), case['s']
    x = np.array([v[i - 1][j] + s * (v[i][j] - v[i - 1][j]) for j in (0, 1)])
    x = ref.fwd(spec.get('pose'), x)
    ak = sh.admissible_kernel(o, x)
    rec.hit()
    rec.label('vertex', s == 0)
    rec.label('none', ak is None)
    if ak is not None:
        # Interior directions are blocked at least: the mirrored interior point is not admissible
        c = gen.region(spec).representative_point()
        require(np.all(np.isfinite(ak.dir1)) and np.all(np.isfinite(ak.dir2)), 'directions not finite')


TESTS = [
    Test('ellipse', cases(gen.ellipse_spec()), check, 3000),
    Test('starshaped', cases(gen.star_spec()), check, 3000),
    Test('polygon', cases(gen.polygon_spec()), check, 6000),
    Test('pocket', cases(gen.polygon_spec(vertices=gen.pocket_vertices())), check, 3000),
    Test('boundary', st.fixed_dictionaries({'o': gen.polygon_spec(), 'i': st.integers(0, 12), 's': st.sampled_from([0, 0, .5, .25, .3])}), boundary, 2000),
]
