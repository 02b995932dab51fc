"""The region counts, not its vertex list: first vertex, orientation and vertices on edges do not matter. Area and convexity are those of the region."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c13 import corner_margin, line_margin, same_directions, same_points, tangents_clear
from pbt.core import Skip, Test, require

RULE = 'the vertex lists differ'


def relabeled(case):
    v, b = case['o']['v'], case['relabel']
    k = b['first'] % len(v)
    w = v[k:] + v[:k]
    out = []
    for i in range(len(w)):
        out.append(w[i])
        for s in sorted(s for j, s in b['insert'] if j % len(w) == i):
            n = w[(i + 1) % len(w)]
            m = [w[i][c] + s * (n[c] - w[i][c]) for c in (0, 1)]
            # Only exact points of the edge
            if m != out[-1] and m != n and ref.side(w[i], n, m) == 0:
                out.append(m)
    if b['reverse']:
        out = out[::-1]
    if b['closed']:
        out = out + [out[0]]
    return out


def check(case, rec):
    from obstacles import Frame
    spec, pose = case['o'], case['o'].get('pose')
    v = spec['v']
    w = relabeled(case)
    rec.hit(w != v)
    rec.label('inserted', len(w) > len(v) + 1)
    a, b = gen.build(spec), gen.build(dict(spec, v=w))
    # Exact area and convexity
    area = abs(float(ref.area2(v))) / 2
    convex = ref.is_convex(v)
    # Convexity is only decided up to a tolerance
    turns = [float(ref.cross(v[i - 2], v[i - 1], v[i])) for i in range(len(v))]
    for o in (a, b):
        require(abs(o.area() - area) < 1e-9 * max(1, area), 'area {}, expected {}', o.area(), area)
        if all(t == 0 or abs(t) > 1e-6 for t in turns):
            require(o.is_convex() == convex, 'convexity is reported as {}, expected {}, for {}', o.is_convex(), convex, w if o is b else v)
            if spec['t'] == 'P':
                require(not convex or o.is_starshaped(), 'convex obstacle is not reported as starshaped')
    rec.label('convex', convex)
    if spec['t'] == 'S':
        require(a.is_starshaped() and b.is_starshaped(), 'starshaped obstacle is not reported as such')
        ka, kb = a.kernel(), b.kernel()
        require(ka.is_empty == kb.is_empty, 'kernels differ')
        if not ka.is_empty:
            require(ka.exterior.hausdorff_distance(kb.exterior) < 1e-6, 'kernels differ')
        xa, xb = a.xr(), b.xr()
        require(np.linalg.norm(xa - xb) < 1e-6, 'default reference points differ: {} {}', list(xa), list(xb))
    require(a.polygon().exterior.hausdorff_distance(b.polygon().exterior) < 1e-9, 'polygons differ')
    for y in case['p']:
        x = ref.fwd(pose, y)
        d = gen.location(spec, x)[1]
        if d > 1e-9:
            la, lb = np.sign(a.point_location(x)), np.sign(b.point_location(x))
            require(la == lb, 'locations of {} are {} and {}', y, la, lb)
        if tangents_clear(spec, y):
            ta, tb = a.tangent_points(x), b.tangent_points(x)
            require(len(ta) == len(tb) and same_directions(x, ta, tb), 'tangent points from {} are {} and {}', y, ta, tb)
        if spec['t'] == 'S':
            xr = a.xr(Frame.OBSTACLE)
            if np.linalg.norm(np.array(y) - xr) > 1e-3:
                ba, bb = a.boundary_mapping(x), b.boundary_mapping(x)
                require(np.linalg.norm(ba - bb) < 1e-6, 'boundary mappings of {} are {} and {}', y, ba, bb)
                fa, fb = a.distance_function(x), b.distance_function(x)
                require(abs(fa - fb) < 1e-6 * max(1, fa), 'distance functions at {} are {} and {}', y, fa, fb)
                if corner_margin(dict(spec, v=v), xr, y) > 1e-6:
                    if corner_margin(dict(spec, v=w), xr, y) > 1e-6:
                        na, nb = a.normal(x), b.normal(x)
                        require(np.linalg.norm(na - nb) < 1e-6, 'normals for {} are {} and {}', y, na, nb)
    for line in case['lines']:
        if line_margin(spec, line) > 1e-6:
            l = [ref.fwd(pose, p) for p in line]
            ia, ib = a.line_intersection(l), b.line_intersection(l)
            require(same_points(ia, ib), 'intersections with {} are {} and {}', line, ia, ib)
    import starshaped_hull as sh
    K = np.array([ref.fwd(pose, p) for p in case['K']])
    # For convex obstacles only the extensions are returned
    ha, hb = [ref.union([gen.region(spec), sh.kernel_starshaped_hull(o, K)]) for o in (a, b)]
    d = ha.buffer(1e-6).difference(hb.buffer(2e-6)).area + hb.buffer(1e-6).difference(ha.buffer(2e-6)).area
    require(d < 1e-6, 'starshaped hulls differ (area {:.2e}, of {} and {})', d, ha.area, hb.area)
    da, db = a.dilated_obstacle(.25).polygon(), b.dilated_obstacle(.25).polygon()
    require(da.exterior.hausdorff_distance(db.exterior) < 1e-2, 'dilated obstacles differ')


@st.composite
def cases(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 100)
    c = b.point(3)
    p = [b.point(3) for _ in range(3)]
    for i in range(2):
        # Very close to a vertex
        v, q = o['v'][b.int(0, len(o['v']) - 1)], 2. ** -b.int(5, 12)
        p.append([v[0] + q * b.sym(3), v[1] + q * b.sym(3)])
    return {'o': o, 'relabel': {'first': b.int(0, 12), 'reverse': b.int(0, 1) == 1, 'closed': b.int(0, 3) == 3,
                                'insert': [[b.int(0, 12), b.int(1, 3) / 4] for _ in range(b.int(0, 3))]},
            'p': p, 'lines': [[b.point(4), b.point(4)] for _ in range(2)],
            'K': [c, [c[0] + .25, c[1]], [c[0], c[1] + .25]]}


P = gen.pose()
TESTS = [
    Test('starshaped', gen.off_center(cases(gen.star_spec(P)), ['p', 'lines', 'K']), check, 2500),
    Test('starshaped_convex', cases(gen.star_spec(P, gen.convex_vertices().map(gen.centered))), check, 1500),
    Test('polygon', gen.off_center(cases(gen.polygon_spec(P)), ['p', 'lines', 'K']), check, 3000),
]
