"""Unit of length and orientation of the axes: every query of an obstacle commutes with scaling, mirroring and turning the whole input."""
import math

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import combo, gen, ref
from pbt.checks.c13 import corner_margin, line_margin, same_directions, same_points, tangents_clear
from pbt.core import Skip, Test, require

RULE = 'input is scaled or mirrored (not only turned), and the obstacle is not symmetric (polygon, or ellipse with different axes)'
ASSUMPTIONS = ['points within 1e-6 of a boundary, directions within 1e-6 of a corner and lines within 1e-6 of a vertex are not judged',
               'polygons of ellipses are 1e-3 too large at any scale', 'weighted normals of combinations and clustering use absolute lengths: not judged; weighted normals of polygons only for points not close to the edges']
AXES = [[[1, 0], [0, 1]], [[-1, 0], [0, 1]], [[1, 0], [0, -1]], [[0, 1], [1, 0]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]], [[0, -1], [-1, 0]]]


class Similarity:
    """x -> s M x, with a power of two and a signed permutation (exact)."""

    def __init__(self, m, s):
        self.M, self.s = np.array(AXES[m]), 2. ** s
        self.flip = round(np.linalg.det(self.M)) < 0

    def p(self, x):
        return [float(v) for v in self.s * (self.M @ np.asarray(x, float))]

    def v(self, x):
        return self.M @ np.asarray(x, float)

    def pose(self, q):
        return None if q is None else self.p(q[:2]) + [-q[2] if self.flip else q[2]]

    def poly(self, p):
        return sg.Polygon([self.p(x) for x in np.asarray(p.exterior.coords)[:, :2]])

    def spec(self, c, xr=None):
        c = dict(c, pose=self.pose(c.get('pose')))
        if c['t'] == 'E':
            c['a'] = [float(v) for v in self.s * np.abs(self.M @ np.asarray(c['a'], float))]
            if c.get('xr') is not None:
                c['xr'] = [float(v) for v in self.M @ np.asarray(c['xr'], float)]
        else:
            c['v'] = [self.p(x) for x in c['v']]
            if c['t'] == 'S':
                c['xr'] = self.p(xr)
        return c


def near(a, b, tol):
    return a is not None and b is not None and np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=tol)


def queries(T, o, w, case, margin, rec, spec=None):
    """All the queries for the points and lines of the case: o in the original, w in the transformed world."""
    tol = 1e-6 * T.s
    for p in case['p']:
        loc, d, corner, tangents, f_known = margin(p)
        x, y = np.array(p, float), np.array(T.p(p))
        what = 'point %s, transformed %s' % (p, list(y))
        if d > 1e-6 and loc is not None:
            require(np.sign(o.point_location(x)) == np.sign(w.point_location(y)), 'location {}, transformed {}, {}', o.point_location(x), w.point_location(y), what)
        if tangents:
            a, b = o.tangent_points(x), w.tangent_points(y)
            a = [np.array(T.p(t)) for t in a]
            if T.flip:
                a = a[::-1]
            require(same_directions(y, b, a, tol * T.s), 'tangent points {}, expected in the direction of {}, {}', [list(t) for t in b], [list(t) for t in a], what)
        if not f_known:
            continue
        f, g = o.distance_function(x), w.distance_function(y)
        # Outside, the values may depend on the unit of length
        require(abs(f - g) < 1e-6 * max(1, f) or (T.s != 1 and f > 1 and g > 1), 'distance function {}, transformed {}, {}', f, g, what)
        a, b = o.boundary_mapping(x), w.boundary_mapping(y)
        require(near(T.p(a), b, tol), 'boundary point {}, transformed {}, {}', list(a), b, what)
        a, b = o.reference_direction(x), w.reference_direction(y)
        require(near(T.v(a), b, 1e-6), 'reference direction {}, transformed {}, {}', list(a), b, what)
        if corner > 1e-6:
            a, b = o.normal(x), w.normal(y)
            require(near(T.v(a), b, 1e-6), 'normal {}, transformed {}, {}', list(a), b, what)
            if spec is not None and spec['t'] == 'S' and weights_clear(spec, o, x, T.s):
                a, b = o.normal(x, type='weighted_edges'), w.normal(y, type='weighted_edges')
                rec.label('weighted normal')
                require(near(T.v(a), b, 3e-2), 'weighted normal {}, transformed {}, {}', list(a), b, what)


def weights_clear(spec, o, x, s):
    """The point is not close to the edges in its direction (absolute lengths matter there), and the weighted sum does not vanish."""
    from obstacles import Frame
    v = [np.array(p, float) for p in ref.ccw(spec['v'])]
    k, y = np.asarray(o.xr(Frame.OBSTACLE), float), np.array(ref.inv(spec.get('pose'), x), float)
    n = len(v)
    cross = lambda a, b: a[0] * b[1] - a[1] * b[0]
    hit = [i for i in range(n) if cross(v[i - 1] - k, y - k) >= 0 > cross(v[i] - k, y - k) and cross(v[i - 1] - k, v[i] - k) > 0]
    if len(hit) != 1:
        return False
    edges = [(v[(hit[0] + j - 1) % n], v[(hit[0] + j) % n]) for j in (-1, 0, 1)]
    d = [ref.point_segment_distance(y, a, b) for a, b in edges]
    if min(d) < .02 or min(d) * s < 1e-3:
        return False
    w = np.array([1 / q for q in d])
    e = np.array([b - a for a, b in edges])
    return np.linalg.norm(w @ e) > .1 * (w @ np.linalg.norm(e, axis=1))


def check_single(case, rec):
    T = Similarity(*case['T'])
    c = case['o']
    star = c['t'] != 'P'
    ell = c['t'] == 'E'
    o = gen.build(c)
    from obstacles import Frame
    xr = o.xr(Frame.OBSTACLE) if star else None
    w = gen.build(T.spec(c, xr))
    rec.hit((T.s != 1 or T.flip) and not (ell and c['a'][0] == c['a'][1]))
    rec.label('mirrored', T.flip)
    rec.label('smaller', T.s < 1)
    slack = 2e-3 * (1 + T.s) if ell else 1e-6 * T.s
    for frame in (Frame.GLOBAL, Frame.OBSTACLE):
        require(T.poly(o.polygon(frame)).exterior.hausdorff_distance(w.polygon(frame).exterior) < slack, 'polygon (frame {}) is not the transformed one', frame)
        if star:
            require(near(T.p(o.xr(frame)), w.xr(frame), 1e-6 * T.s), 'reference point {}, transformed {}', list(o.xr(frame)), list(w.xr(frame)))
            k, l = o.kernel(frame), w.kernel(frame)
            require(T.poly(k).exterior.hausdorff_distance(l.exterior) < (slack if ell else 1e-5 * T.s), 'kernel (frame {}) has area {}, transformed {}', frame, k.area, l.area)
    require(o.is_convex() == w.is_convex(), 'is_convex {}, transformed {}', o.is_convex(), w.is_convex())
    if not ell:
        require(same_points([T.p(x) for x in o.extreme_points()], w.extreme_points(), 1e-6 * T.s), 'extreme points')
    require(T.poly(o.convex_hull_polygon() if hasattr(o, 'convex_hull_polygon') else o.polygon().convex_hull).exterior.hausdorff_distance(
        w.polygon().convex_hull.exterior) < slack, 'convex hull')
    if star:
        d = case['d']
        a, b = o.dilated_obstacle(d, id='temp'), w.dilated_obstacle(d * T.s, id='temp')
        t = slack + .02 * d * T.s
        require(T.poly(a.polygon()).exterior.hausdorff_distance(b.polygon().exterior) < t, 'dilated by {}', d)

    local = dict(c, pose=None)
    xrg = None if xr is None else np.asarray(xr, float)

    def margin(p):
        q = [float(v) for v in ref.inv(c.get('pose'), p)]
        loc, d = gen.location(local, q)
        known = star and np.linalg.norm(np.subtract(q, xrg)) > 1e-3
        return loc, d, corner_margin(c, xrg, q) if known else 0, tangents_clear(c, q), known
    queries(T, o, w, case, margin, rec, c)
    for line in case['lines']:
        q = [[float(v) for v in ref.inv(c.get('pose'), p)] for p in line]
        if line_margin(c, q) < 1e-6:
            continue
        a = o.line_intersection([np.array(p, float) for p in line])
        b = w.line_intersection([np.array(T.p(p)) for p in line])
        require(len(a) == len(b) and same_points([np.array(T.p(x)) for x in a], b, 1e-6 * T.s), 'line intersections {}, transformed {}', a, b)


def check_pair(case, rec):
    """Intersection of two obstacles, admissible kernels and starshaped hulls."""
    import starshaped_hull as sh
    T = Similarity(*case['T'])
    specs = case['os']
    obs = [gen.build(c) for c in specs]
    from obstacles import Frame
    new = [gen.build(T.spec(c, o.xr(Frame.OBSTACLE) if c['t'] == 'S' else None)) for c, o in zip(specs, obs)]
    rec.hit(T.s != 1 or T.flip)
    regs = [gen.region(c, 128) for c in specs]
    near_by = sum(.06 * max(c['a']) + 3e-3 * (1 + 1 / T.s) for c in specs if c['t'] == 'E') + 1e-6
    a, b = obs[0].intersects(obs[1]), new[0].intersects(new[1])
    touching = regs[0].distance(regs[1]) < near_by and not regs[0].buffer(-near_by).intersects(regs[1])
    if not touching:
        require(bool(a) == bool(b), 'intersects is {}, transformed {}', a, b)
    x = case['x']
    for c, o, w in zip(specs, obs, new):
        y = [float(v) for v in ref.inv(c.get('pose'), x)]
        if not tangents_clear(c, y):
            continue
        a, b = sh.admissible_kernel(o, np.array(x, float)), sh.admissible_kernel(w, np.array(T.p(x)))
        require((a is None) == (b is None), 'admissible kernel {}, transformed {}', a, b)
        if a is None:
            continue
        for k in case['p']:
            d = np.subtract(k, x)
            n = np.linalg.norm(d)
            if n < 1e-3 or min(abs(d[0] * e[1] - d[1] * e[0]) / n for e in (a.dir1, a.dir2)) < 1e-5 * max(1, np.linalg.norm(a.dir1), np.linalg.norm(a.dir2)):
                continue
            require(bool(a.point_in_cone(np.array(k, float))) == bool(b.point_in_cone(np.array(T.p(k)))), 'admissibility of {} for excluding {}', k, x)
    kp = np.array(case['k'], float)
    # (Convex obstacles are not part of the extension)
    a, b = [ref.union([h for h in [sh.kernel_starshaped_hull(l, q)] + [o.polygon() for o in l] if h is not None and not h.is_empty])
            for l, q in ((obs, kp), (new, np.array([T.p(k) for k in kp])))]
    size = 1 + max([np.abs(r.bounds).max() for r in regs] + [np.abs(kp).max()])
    slack = 2 * size * (1 + 1 / T.s) * (3e-3 if any(c['t'] == 'E' for c in specs) else 1e-5)
    require(abs(a.area - b.area / T.s ** 2) < slack, 'starshaped hull and obstacles with the area {}, transformed {} ({})', a.area, b.area, b.area / T.s ** 2)
    t = a.buffer(0).geoms if hasattr(a, 'geoms') else [a]
    t = ref.union([T.poly(g).buffer(1e-4 * T.s) for g in t if g.geom_type == 'Polygon'])
    diff = t.symmetric_difference(ref.union([sg.Polygon(g.exterior).buffer(1e-4 * T.s) for g in (b.geoms if hasattr(b, 'geoms') else [b]) if g.geom_type == 'Polygon'])).area
    require(diff / T.s ** 2 < slack, 'starshaped hulls differ by the area {}', diff / T.s ** 2)


def check_combination(case, rec):
    T = Similarity(*case['T'])
    c = case['o']
    star = [dict(m, xr=m['xr'] if m['xr'] is not None else None) for m in c['o']]
    o, _ = combo.build(c)
    d = {'o': [dict(m, v=[T.p(x) for x in m['v']], pose=T.pose(m['pose']), xr=None if m['xr'] is None else T.p(m['xr'])) for m in star],
         'hull': [T.p(x) for x in c['hull']] if c['hull'] else None, 'xr': T.p(c['xr'])}
    w, _ = combo.build(d)
    rec.hit(T.s != 1 or T.flip)
    t = 1e-6 * (1 + T.s)
    require(T.poly(o.polygon()).exterior.hausdorff_distance(w.polygon().exterior) < t, 'polygon is not the transformed one')
    require(near(T.p(o.xr()), w.xr(), 1e-7 * T.s), 'reference point {}, transformed {}', list(o.xr()), list(w.xr()))
    xr = np.array(c['xr'])
    for p in case['o']['p']:
        x, y = np.array(p, float), np.array(T.p(p))
        e = np.linalg.norm(x - xr)
        on = min(ref.boundary_distance(v, p) for v in combo.parts(c))
        if on > 1e-6:
            require(np.sign(o.point_location(x)) == np.sign(w.point_location(y)), 'location of {}: {}, transformed {}', p, o.point_location(x), w.point_location(y))
        if e < 1e-2:
            continue
        a, b = o.boundary_mapping(x), w.boundary_mapping(y)
        ang = math.atan2(x[1] - xr[1], x[0] - xr[0])
        jump = [combo.radius(c, np.array([math.cos(ang + h), math.sin(ang + h)]))[0] for h in (-1e-6, 0, 1e-6)]
        if max(jump) - min(jump) < 1e-3:
            require(near(T.p(a), b, 1e-5 * T.s), 'boundary point {} for {}, transformed {}', list(a), p, b)
            f, g = o.distance_function(x), w.distance_function(y)
            require(abs(f - g) < 1e-5 * max(1, f) or (T.s != 1 and f > 1 and g > 1), 'distance function {} for {}, transformed {}', f, p, g)


def transformation(b):
    return [b.int(0, 7), [0, 1, -1, 3, -3, 5][b.int(0, 5)]]


@st.composite
def cases(draw, spec):
    o = draw(spec)
    b = gen.Raw(draw, 60)
    c = {'o': o, 'T': transformation(b), 'd': b.int(1, 8) / 16}

    def point():
        p = b.point(4)
        return [float(v) for v in ref.fwd(o.get('pose'), p)]
    c['p'] = [point() for _ in range(3)]
    c['lines'] = [[point(), point()] for _ in range(3)]
    return c


@st.composite
def pairs(draw, obstacles):
    os = [draw(obstacles), draw(obstacles)]
    b = gen.Raw(draw, 60)
    return {'os': os, 'T': transformation(b), 'x': b.point(5), 'p': [b.point(6) for _ in range(5)], 'k': [b.point(3) for _ in range([1, 3, 2][b.int(0, 2)])]}


@st.composite
def combos(draw):
    o = draw(combo.with_points())
    b = gen.Raw(draw, 3)
    return {'o': o, 'T': transformation(b)}


NEAR = gen.pose(1)
TESTS = [
    Test('ellipse', cases(gen.ellipse_spec()), check_single, 1200),
    Test('starshaped', cases(gen.star_spec()), check_single, 1500),
    Test('polygon', cases(gen.polygon_spec()), check_single, 1500),
    Test('pair', pairs(gen.obstacle_spec(NEAR)), check_pair, 1500),
    Test('combination', combos(), check_combination, 1000),
]
