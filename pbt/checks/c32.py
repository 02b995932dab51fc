"""The form of the numbers does not matter: integers, lists, tuples, strided and read-only arrays give what arrays of floats give."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scene
from pbt.core import Skip, Test, require

RULE = 'coordinates given as integers (or the pose, the step, the sizes)'
FORMS = ['int64', 'int32', 'readonly', 'strided', 'fortran', 'float']


def form(kind, v):
    """The numbers of the nested list v (integers) in another form."""
    if kind == 'list':
        return v if not isinstance(v, list) else [form('list', w) if isinstance(w, list) else w for w in v]
    if kind == 'tuple':
        return tuple(tuple(w) if isinstance(w, list) else w for w in v)
    if kind in ('int64', 'int32'):
        return np.array(v, kind)
    a = np.array(v, float)
    if kind == 'readonly':
        a.flags.writeable = False
    elif kind == 'strided':
        b = np.full(tuple(2 * n for n in a.shape), np.nan)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = b[tuple(slice(None, None, 2) for _ in a.shape)]
    elif kind == 'fortran':
        a = np.asfortranarray(a)
    return a


def make(c, kind, star=None):
    """Obstacle from vertices (or semi-axes), position and reference point in the given form."""
    from obstacles import Ellipse, Polygon, StarshapedPolygon, motion_model as mm
    m = None if c['pose'] is None else mm.Static(form(kind, c['pose'][:2]), c['pose'][2])
    xr = None if c.get('xr') is None else form(kind, c['xr'])
    if c['t'] == 'E':
        return Ellipse(form(kind, c['a']), xr=xr, motion_model=m)
    if c['t'] == 'S':
        return StarshapedPolygon(form(kind, c['v']), xr=xr, motion_model=m)
    return Polygon(form(kind, c['v']), motion_model=m)


def flat(r):
    """Result as nested lists of floats."""
    if r is None or isinstance(r, (bool, np.bool_, str)):
        return [r]
    if hasattr(r, 'geom_type'):
        return [r.geom_type, r.area] + [list(p) for p in np.asarray(getattr(r, 'exterior', r).coords)] if r.geom_type == 'Polygon' else [r.geom_type, r.wkt]
    if hasattr(r, 'xy'):
        return [float(v) for v in r.xy]
    if isinstance(r, (list, tuple)):
        return [flat(q) for q in r]
    return np.asarray(r, float).tolist()


def equal(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(1, abs(a)) or (math.isnan(a) and math.isnan(b))
    return a == b


def compare(what, kind, f, g):
    """g must give what f gives (with floats). Where f fails, there is nothing to compare."""
    try:
        a = flat(f())
    except Exception:
        return
    b = flat(g())
    require(equal(a, b), '{} of {} instead of arrays of floats: {}, expected {}', what, kind, b, a)


def check_obstacle(case, rec):
    c, kind, args = case['o'], case['args'], case['form']
    o, w = make(c, 'float'), make(c, args)
    rec.hit('int' in kind or args in ('int64', 'int32', 'list', 'tuple'))
    rec.label(kind)
    rec.label(args + ' obstacle')
    pts, lines = case['p'], case['lines']
    F = lambda p: np.array(p, float)
    G = lambda p: form(kind, p)
    what = '%s obstacle and %s points' % (args, kind)
    kind = what

    def every(o, G):
        from obstacles import Frame
        yield 'polygon', lambda: o.polygon()
        yield 'is_convex', lambda: o.is_convex()
        yield 'extreme points', lambda: o.extreme_points()
        for p in pts:
            for n in ('point_location', 'interior_point', 'exterior_point', 'tangent_points'):
                yield n, lambda: getattr(o, n)(G(p))
            yield 'transform', lambda: o.transform(G(p), Frame.GLOBAL, Frame.OBSTACLE)
            yield 'rotate', lambda: o.rotate(G(p), Frame.OBSTACLE, Frame.GLOBAL)
            if c['t'] != 'P':
                for n in ('distance_function', 'boundary_mapping', 'reference_direction', 'normal', 'vel_intertial_frame'):
                    if p != case['avoid']:
                        yield n, lambda: getattr(o, n)(G(p))
                        if n in ('boundary_mapping', 'normal'):
                            yield n + ' (obstacle frame)', lambda: getattr(o, n)(G(p), Frame.OBSTACLE, Frame.OBSTACLE)
        for l in lines:
            yield 'line_intersection', lambda: o.line_intersection([G(l[0]), G(l[1])])
        if c['t'] != 'P':
            yield 'xr', lambda: o.xr()
            yield 'kernel', lambda: o.kernel()
            yield 'dilated', lambda: o.dilated_obstacle(case['pad']).polygon()

            def set_xr():
                o.set_xr(G(case['xr']), input_frame=Frame.OBSTACLE)
                return o.xr()
            yield 'set_xr', set_xr
            for p in pts:
                if p != case['avoid']:
                    yield 'boundary_mapping after set_xr', lambda: o.boundary_mapping(G(p))
                    yield 'normal after set_xr', lambda: o.normal(G(p))
    for (n, f), (_, g) in zip(every(o, F), every(w, G)):
        compare(n, kind, f, g)


def check_functions(case, rec):
    """Functions of the packages for points, with integer arrays."""
    import starshaped_hull as sh
    import utils as u
    kind = case['form']
    rec.hit('int' in kind)
    rec.label(kind)
    p, k = case['p'], case['k']
    spec = case['o']

    def every(G, o):
        a, b, c, d = [G(q) for q in p[:4]]
        for n in ('is_cw', 'is_ccw', 'is_collinear', 'is_between', 'orientation_val'):
            if hasattr(u, n):
                yield n, lambda: getattr(u, n)(a, b, c)
        for n in ('intersect', 'get_intersection'):
            yield n, lambda: getattr(u, n)(a, b, c, d)
        yield 'line', lambda: np.asarray(u.line(a, b).coords)
        yield 'ray', lambda: np.asarray(u.ray(a, b, c).coords)
        yield 'affine_transform', lambda: u.affine_transform(a, 1, b)
        yield 'inverse affine_transform', lambda: u.affine_transform(a, 2, b, inverse=True)
        yield 'affine_transform without rotation', lambda: u.affine_transform(a, 0, b)
        yield 'convex_hull', lambda: u.convex_hull(G(p))
        yield 'equilateral_triangle', lambda: u.equilateral_triangle(a, case['side'], case['rot'])
        yield 'LineSegment', lambda: u.LineSegment(u.Point(*a), u.Point(*b)).line_segment_intersection(u.LineSegment(u.Point(*c), u.Point(*d)))
        yield 'Line', lambda: u.Line(u.Point(*a), u.Point(*b)).line_intersection(u.Line(u.Point(*c), u.Point(*d)))
        yield 'Ray', lambda: u.Ray(u.Point(*a), u.Point(*b)).ray_intersection(u.Ray(u.Point(*c), u.Point(*d)))

        def cone():
            cn = u.Cone(a, b, c)
            return [cn.polygon().area, cn.point_in_cone(d), [float(v) for v in cn.polygon().bounds]]
        if p[1] != [0, 0] and p[2] != [0, 0]:
            yield 'Cone', cone

        def cones():
            return u.Cone(a, b, c).intersection(u.Cone(d, c, b)).area
        if [0, 0] not in (p[1], p[2]) and p[1][0] * p[2][1] != p[1][1] * p[2][0]:
            yield 'Cone intersection', cones

        def seed(f):
            np.random.seed(case['side'])
            return f()
        yield 'point_in_triangle', lambda: seed(lambda: u.point_in_triangle(a, b, c))

        def ak():
            t = sh.admissible_kernel(o, d)
            return None if t is None else [t.dir1, t.dir2]
        yield 'admissible_kernel', ak
        yield 'kernel_starshaped_hull', lambda: sh.kernel_starshaped_hull(o, G(k))
        yield 'kernel_starshaped_hull of a list', lambda: sh.kernel_starshaped_hull([o], G(k))
    for (n, f), (_, g) in zip(every(lambda q: np.array(q, float), make(spec, 'float')), every(lambda q: form(kind, q), make(spec, kind))):
        compare(n, kind, f, g)


def check_motion(case, rec):
    """Motion models with integer positions, times and velocities."""
    from obstacles import motion_model as mm
    kind, m = case['form'], case['m']
    rec.hit('int' in kind or kind in ('list', 'tuple'))
    rec.label(m['t'])

    def make_model(kind, num):
        p = form(kind, m['p'])
        if m['t'] == 'static':
            return mm.Static(p, num(m['rot']))
        if m['t'] == 'sinus':
            return mm.SinusVelocity(p, num(m['rot']), m['cart'], num(m['v'][0]), num(m['v'][1]), num(m['v'][2]), num(m['v'][3]))
        if m['t'] == 'interval':
            return mm.Interval(p, [(num(t), form(kind, q)) for t, q in m['tp']])
        if case.get('table') and kind != 'float':
            # All waypoints as one array
            return mm.Waypoints(p, form(kind, m['wp']), num(m['v'][0]), num(m['thresh']))
        return mm.Waypoints(p, [form(kind, q) for q in m['wp']], num(m['v'][0]), num(m['thresh']))
    a, b = make_model('float', float), make_model(kind, int)
    for i, dt in enumerate(case['dt']):
        for x, d in ((a, float(dt)), (b, dt)):
            x.move(None, d)
        for n in ('pos', 'rot', 'lin_vel', 'rot_vel'):
            p, q = np.asarray(getattr(a, n)(), float), np.asarray(getattr(b, n)(), float)
            require(p.shape == q.shape and np.allclose(p, q, rtol=1e-12, atol=1e-12), '{} after step {} with numbers as {}: {}, expected {}', n, i, kind,
                    q.tolist(), p.tolist())
        if case['set'] == i:
            q = case['to']
            a.set_pos(np.array(q, float)), b.set_pos(form(kind, q))


def check_clustering(case, rec):
    """Clustering of obstacles with integer coordinates."""
    import starshaped_hull as sh
    kind = case['form']
    if not all(scene.is_free(dict(s), p, .03) for s in case['obs'] for p in (case['x'], case['xg'])) or case['x'] == case['xg']:
        raise Skip()

    def run(kind, num):
        np.random.seed(0)
        obs = [make(dict(s), kind) for s in case['obs']]
        r = sh.cluster_and_starify(obs, form(kind, case['x']), form(kind, case['xg']), num(case['eps']), make_convex=case['convex'],
                                   exclude_obstacles=case['exclude'])
        n = [[obs.index(o) for o in cl.obstacles] for cl in r[0]]
        return r[2], r[3], [(i, cl.cluster_obstacle.polygon(), cl.kernel_points) for i, cl in zip(n, r[0])]
    # The clustering with other bits may differ in degenerate scenes, but the bits are the same
    a, b = run('float', float), run(kind, int)
    require(a[:2] == b[:2], 'flag and iterations {}, with floats {}', b[:2], a[:2])
    require([c[0] for c in a[2]] == [c[0] for c in b[2]], 'clusters {}, with floats {}', [c[0] for c in b[2]], [c[0] for c in a[2]])
    for (i, p, k), (_, q, l) in zip(a[2], b[2]):
        require((k is None) == (l is None) and (k is None or np.allclose(k, l, rtol=0, atol=1e-9)), 'kernel points of {}: {}, with floats {}', i, l, k)
        require(p.exterior.hausdorff_distance(q.exterior) < 1e-7, 'region of the cluster {}', i)
    rec.label('flag%d' % a[0])
    rec.hit(len(a[2]) < len(case['obs']) or a[1] > 1 or len(case['obs']) > 1)


# ---------- generators ---------- #
def whole(v, f):
    return [[int(round(c * f)) for c in p] for p in v]


@st.composite
def integer_obstacle(draw, posed=None, kinds='ESCP', big=True):
    b = gen.Raw(draw, 20)
    t = kinds[b.int(0, len(kinds) - 1)]
    pose = None if (b.int(0, 2) == 0 if posed is None else not posed) else [b.sym(9), b.sym(9), b.sym(3)]
    if t == 'E':
        a = [b.int(1, 6), b.int(1, 6)]
        return {'t': 'E', 'a': a, 'pose': pose, 'xr': None if b.int(0, 1) else [0, 0]}
    if t == 'S':
        v = whole(draw(gen.star_vertices()), 64 if big else 2)
        if not big:
            v = whole(draw(gen.convex_vertices()), 2)
            return {'t': 'P', 'v': v, 'pose': pose}
        return {'t': 'S', 'v': v, 'pose': pose, 'xr': None if b.int(0, 1) else [0, 0]}
    if t == 'C':
        return {'t': 'S', 'v': whole(draw(gen.convex_vertices()), 8 if big else 2), 'pose': pose, 'xr': None}
    return {'t': 'P', 'v': whole(draw(st.one_of(gen.tangled_vertices(), gen.convex_vertices())), 8), 'pose': pose}


@st.composite
def obstacles(draw):
    o = draw(integer_obstacle())
    b = gen.Raw(draw, 50)
    r = {'E': 8, 'S': 160, 'P': 24}[o['t']]
    point = lambda: [b.sym(r), b.sym(r)]
    avoid = [o['pose'][0], o['pose'][1]] if o['pose'] else [0, 0]
    return {'o': o, 'form': FORMS[b.int(0, 5)], 'args': (FORMS[:2] + ['list', 'tuple', 'readonly', 'strided'])[b.int(0, 5)], 'p': [point() for _ in range(4)],
            'lines': [[point(), point()] for _ in range(3)], 'xr': [0, 0], 'avoid': avoid, 'pad': b.int(1, 4) / 2}


@st.composite
def functions(draw):
    o = draw(integer_obstacle())
    b = gen.Raw(draw, 60)
    r = [4, 20, 200][b.int(0, 2)]
    point = lambda: [b.sym(r), b.sym(r)]
    return {'o': o, 'form': FORMS[b.int(0, 4)], 'p': [point() for _ in range(6)], 'k': [point() for _ in range([1, 3, 2][b.int(0, 2)])], 'side': b.int(1, 5), 'rot': b.sym(3)}


@st.composite
def motions(draw):
    b = gen.Raw(draw, 60)
    p = lambda: [b.sym(9), b.sym(9)]
    m = {'t': ['static', 'sinus', 'interval', 'waypoints'][b.int(0, 3)], 'p': p(), 'rot': b.sym(4), 'cart': b.int(0, 1) == 0, 'v': [b.int(0, 5) for _ in range(4)],
         'tp': [[b.int(1, 4), p()] for _ in range(b.int(1, 3))], 'wp': [p() for _ in range(b.int(1, 3))], 'thresh': b.int(1, 3)}
    return {'m': m, 'form': ['int64', 'int32', 'list', 'tuple', 'readonly', 'strided'][b.int(0, 5)], 'dt': [b.int(1, 3) for _ in range(b.int(1, 6))],
            'set': b.int(0, 9), 'to': p(), 'table': b.int(0, 1) == 1}


@st.composite
def clusterings(draw):
    b = gen.Raw(draw, 60)
    obs = []
    for _ in range(b.int(1, 5)):
        o = draw(integer_obstacle(posed=True, kinds='ECPE', big=False))
        if 'v' in o and o['t'] == 'P' and max(abs(c) for p in o['v'] for c in p) > 8:
            o['v'] = whole(o['v'], .25)
        o['pose'] = [b.sym(10), b.sym(10), b.sym(3)]
        obs.append(o)
    return {'obs': obs, 'x': [b.sym(16), b.sym(16)], 'xg': [b.sym(16), b.sym(16)], 'eps': 1, 'convex': b.int(0, 2) == 2, 'exclude': b.int(0, 3) == 3,
            'form': ['int64', 'int32', 'readonly', 'strided'][b.int(0, 3)]}


def simple(case):
    from pbt import ref
    return all('v' not in o or (len(set(map(tuple, o['v']))) == len(o['v']) and ref.is_simple(o['v']) and abs(ref.area2(o['v'])) > 1) for o in case['obs'])


TESTS = [
    Test('obstacle', obstacles(), check_obstacle, 2500),
    Test('functions', functions(), check_functions, 2500),
    Test('motion', motions(), check_motion, 2500),
    Test('clustering', clusterings().filter(simple), check_clustering, 500),
]
