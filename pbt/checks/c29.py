"""Calls leave what they are given as it was: points, lists, obstacles, workspace, clusters of a previous step and their results."""
import contextlib
import io

import numpy as np
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import gen, ref, scene
from pbt.core import Skip, Test, require

RULE = 'clustering: previous clusters and at least two obstacles, or a complete clustering with an extended or merged cluster; queries: always'


def coords(p):
    """Coordinates of a geometry (any type)."""
    if p is None:
        return None
    if hasattr(p, 'geoms'):
        return [coords(g) for g in p.geoms]
    if p.is_empty:
        return []
    if p.geom_type == 'Polygon':
        return [[list(map(float, q)) for q in p.exterior.coords]] + [[list(map(float, q)) for q in i.coords] for i in p.interiors]
    return [list(map(float, q)) for q in p.coords]


def close(a, b):
    """Equal nested lists of numbers (up to rounding: caches may be computed again)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) < 1e-12 * max(1, abs(a))
    return a == b


def look(o, xr=True):
    """What can be seen of an obstacle."""
    from obstacles import Frame
    d = {'id': o.id(), 'name': str(o), 'pos': [float(v) for v in o.pos()], 'rot': float(o.rot()), 'polygon': coords(o.polygon()),
         'local': coords(o.polygon(Frame.OBSTACLE)), 'model': id(getattr(o, '_motion_model', None)), 'type': type(o).__name__}
    if xr and hasattr(o, 'xr'):
        d['xr'] = [float(v) for v in o.xr(Frame.OBSTACLE)]
    return d


def look_cluster(cl, own):
    d = {'name': str(cl), 'obstacles': [id(o) for o in cl.obstacles], 'cluster obstacle': id(cl.cluster_obstacle),
         'kernel points': None if cl.kernel_points is None else np.asarray(cl.kernel_points, float).tolist(), 'kernel': coords(cl.admissible_kernel)}
    if not any(cl.cluster_obstacle is o for o in own):
        d['cluster'] = look(cl.cluster_obstacle)
        d['polygon'] = coords(cl.polygon())
    return d


def unchanged(before, after, what):
    for k in before:
        require(close(before[k], after[k]), '{}: {} was {}, is {}', what, k, str(before[k])[:200], str(after[k])[:200])


def clustering(case, rec):
    import starshaped_hull as sh
    from obstacles import motion_model as mm
    obs = scene.build(case)
    kw = dict(case.get('opt', {}))
    ws = None
    if 'ws' in case:
        ws = kw['workspace'] = gen.build(case['ws'], id='temporary')
    given = list(obs)
    x, xg, eps = scene.pt(case['x']), scene.pt(case['xg']), case['eps']
    prev = None
    np.random.seed(5)
    with contextlib.redirect_stdout(io.StringIO()):
        if 'before' in case:
            d = case['before']['d']
            for i, (o, s) in enumerate(zip(obs, case['obs'])):
                o.set_motion_model(mm.Static([s['pose'][0] + d[0] * (i % 2), s['pose'][1] + d[1] * (i % 3 > 0)], s['pose'][2] + d[2]))
            res = sh.cluster_and_starify(obs, scene.pt(case['before']['x']), scene.pt(case['xg']), eps, **kw)
            for o, s in zip(obs, case['obs']):
                o.set_motion_model(mm.Static(s['pose'][:2], s['pose'][2]))
            if res[2] == scene.COMPLETE:
                prev = kw['previous_clusters'] = res[0]
        seen = [look(o, xr=False) for o in obs]
        # The reference point might be moved, but is not moved out of the obstacle
        seen_ws = look(ws) if ws is not None else None
        seen_prev = None if prev is None else [look_cluster(cl, obs) for cl in prev]
        given_prev = None if prev is None else list(prev)
        given_kw = dict(kw)
        res = sh.cluster_and_starify(obs, x, xg, eps, **kw)
        cls = list(res[0])
        seen_res = [look_cluster(cl, obs) for cl in res[0]] if res[2] == scene.COMPLETE else None
        rec.hit((prev is not None and len(obs) > 1) or (res[2] == scene.COMPLETE and any(cl.cluster_obstacle is not cl.obstacles[0] for cl in cls)))

        def check(what):
            require(x.tolist() == case['x'] and xg.tolist() == case['xg'], '{}: positions {} {} changed to {} {}', what, case['x'], case['xg'], x.tolist(), xg.tolist())
            require(len(obs) == len(given) and all(a is b for a, b in zip(obs, given)), '{}: the list of obstacles changed', what)
            for o, b in zip(obs, seen):
                unchanged(b, look(o, xr=False), '%s: obstacle %d' % (what, o.id()))
            if ws is not None:
                unchanged(seen_ws, look(ws), what + ': workspace')
            require(kw == given_kw, '{}: options changed', what)
            if prev is not None:
                require(len(prev) == len(given_prev) and all(a is b for a, b in zip(prev, given_prev)), '{}: the list of previous clusters changed', what)
                for cl, b in zip(prev, seen_prev):
                    unchanged(b, look_cluster(cl, obs), '%s: previous cluster %s' % (what, b['name']))
        check('clustering')
        for o, s in zip(obs, case['obs']):
            if s['t'] != 'P':
                require(gen.region(s, 256).buffer(1e-6).covers(sg.Point(o.xr())), 'the reference point of obstacle {} is moved out of it to {}', o.id(), list(o.xr()))
        # The results do not change either when the clustering is used, or continued
        if case['again'] and seen_res is not None:
            more = {k: v for k, v in kw.items() if k != 'previous_clusters'}
            if case['again'] > 1:
                more['previous_clusters'] = res[0]
            xs = x.copy()
            xs += .001
            sh.cluster_and_starify(obs, xs, xg, eps, **more)
            check('second clustering')
            require(len(res[0]) == len(cls) and all(a is b for a, b in zip(res[0], cls)), 'the list of result clusters changed')
            for cl, b in zip(res[0], seen_res):
                unchanged(b, look_cluster(cl, obs), 'result cluster %s after another clustering' % b['name'])


def queries(case, rec):
    """Queries of obstacles, and functions of the hull and kernel computation."""
    import starshaped_hull as sh
    import utils
    from obstacles import Frame
    o, other = gen.build(case['o']), gen.build(case['other'])
    before, before_other = look(o), look(other)
    x, y = np.array(case['p'][0], float), np.array(case['p'][1], float)
    line = [x, y]
    rec.hit()
    frame = [Frame.GLOBAL, Frame.OBSTACLE][case['frame']]

    def check(what):
        require(x.tolist() == case['p'][0] and y.tolist() == case['p'][1], '{}: the points {} changed to {} {}', what, case['p'][:2], x.tolist(), y.tolist())
        require(len(line) == 2 and line[0] is x and line[1] is y, '{}: the given line changed', what)
        unchanged(before, look(o), what)
        unchanged(before_other, look(other), what + ' (other obstacle)')
    res = []
    for what, f in [('point_location', lambda: o.point_location(x, frame)), ('interior_point', lambda: o.interior_point(x, frame)),
                    ('exterior_point', lambda: o.exterior_point(x)), ('boundary_point', lambda: o.boundary_point(x, frame)),
                    ('tangent_points', lambda: o.tangent_points(x, frame)), ('line_intersection', lambda: o.line_intersection(line, frame)),
                    ('intersects', lambda: o.intersects(other)), ('extreme_points', lambda: o.extreme_points()), ('is_convex', lambda: o.is_convex()),
                    ('is_starshaped', lambda: o.is_starshaped()), ('transform', lambda: o.transform(x, Frame.GLOBAL, Frame.OBSTACLE)),
                    ('rotate', lambda: o.rotate(x, Frame.OBSTACLE, Frame.GLOBAL)), ('copy', lambda: o.copy()), ('copy', lambda: o.copy('duplicate')),
                    ('dilated_obstacle', lambda: o.dilated_obstacle(.25)), ('dilated_obstacle', lambda: o.dilated_obstacle(.25, 'duplicate')),
                    ('admissible_kernel', lambda: sh.admissible_kernel(o, x))]:
        res.append(f())
        check(what)
    # Results belong to the caller (the dilated obstacle is another one)
    for r in res:
        if hasattr(r, 'set_motion_model'):
            r.set_motion_model(None)
            if hasattr(r, 'set_xr'):
                r.set_xr(np.array([.01, .02]))
        if isinstance(r, list):
            for e in r:
                if isinstance(e, np.ndarray) and e.flags.writeable and not (e is x or e is y):
                    e += 3.
    check('changing the results')
    if case['o']['t'] != 'P' and np.linalg.norm(x - o.xr(frame)) > 1e-3:
        for what, f in [('boundary_mapping', lambda: o.boundary_mapping(x, frame)), ('normal', lambda: o.normal(x, frame)),
                        ('distance_function', lambda: o.distance_function(x, frame)), ('reference_direction', lambda: o.reference_direction(x)),
                        ('kernel', lambda: o.kernel()), ('kernel', lambda: o.kernel(Frame.OBSTACLE)), ('vel_intertial_frame', lambda: o.vel_intertial_frame(x))]:
            r = f()
            check(what)
            if isinstance(r, np.ndarray) and r.flags.writeable and what in ('boundary_mapping', 'normal', 'reference_direction') and r is not x:
                r += 2.
                check('changing the result of ' + what)
    # Starshaped hull
    K = utils.equilateral_triangle(y, .1)
    K0, L, L0 = K.tolist(), [o, other], [o, other]
    sh.kernel_starshaped_hull(L, K)
    sh.kernel_starshaped_hull(o, K)
    require(K.tolist() == K0, 'kernel_starshaped_hull: kernel points changed')
    require(len(L) == 2 and all(a is b for a, b in zip(L, L0)), 'kernel_starshaped_hull: list of obstacles changed')
    check('kernel_starshaped_hull')


def grouping(case, rec):
    """get_intersection_clusters"""
    import starshaped_hull as sh
    obs = scene.build(case)
    cls = [sh.ObstacleCluster([o]) for o in obs]
    given, seen = list(cls), [look_cluster(cl, obs) for cl in cls]
    seen_obs = [look(o) for o in obs]
    new, _ = sh.get_intersection_clusters(cls)
    rec.hit(len(new) < len(cls) and len(new) > 1)
    require(len(cls) == len(given) and all(a is b for a, b in zip(cls, given)), 'the given list of clusters changed')
    for cl, b in zip(cls, seen):
        unchanged(b, look_cluster(cl, obs), 'cluster %s' % b['name'])
    for o, b in zip(obs, seen_obs):
        unchanged(b, look(o), 'obstacle %d' % o.id())
    # The list of one of the new clusters is not the one of a given cluster
    for cl in new:
        if not any(cl is g for g in given):
            cl.obstacles.append('x')
    for cl, b in zip(given, seen):
        unchanged(b, look_cluster(cl, obs), 'cluster %s after changing the result' % b['name'])


def geometry(case, rec):
    """Functions of the utilities."""
    import utils
    P = [np.array(p, float) for p in case['p']]
    a, b, c, d, e = P
    rec.hit()

    def check(what):
        got = [p.tolist() for p in P]
        require(got == case['p'], '{}: points {} changed to {}', what, case['p'], got)
    pol = [sg.Polygon(v) for v in case['polygons']]
    pol0, L = [coords(p) for p in pol], list(pol)
    pts = list(P)
    u = utils
    calls = [('affine_transform', lambda: u.affine_transform(a, case['angle'], b)), ('affine_transform', lambda: u.affine_transform(a, case['angle'], b, inverse=True)),
             ('affine_transform', lambda: u.affine_transform(a, 0, b)), ('affine_transform', lambda: u.affine_transform(a, 0, b, inverse=True)),
             ('is_ccw', lambda: u.is_ccw(a, b, c)), ('is_cw', lambda: u.is_cw(a, b, c)), ('is_collinear', lambda: u.is_collinear(a, b, c)),
             ('is_between', lambda: u.is_between(a, b, c)), ('intersect', lambda: u.intersect(a, b, c, d)), ('point_in_triangle', lambda: u.point_in_triangle(a, b, c)),
             ('equilateral_triangle', lambda: u.equilateral_triangle(a, .5)), ('equilateral_triangle', lambda: u.equilateral_triangle(a, .5, .3)),
             ('get_intersection', lambda: u.get_intersection(a, b, c, d)),
             ('polygon_union', lambda: u.polygon_union(L)), ('convex_polygon_intersection', lambda: u.convex_polygon_intersection(L))]
    for what, f in calls:
        try:
            r = f()
        except TypeError:
            # Another argument list
            continue
        check(what)
        require(len(L) == len(pol) and all(s is t for s, t in zip(L, pol)), '{}: list of polygons changed', what)
        require([coords(p) for p in pol] == pol0, '{}: a polygon changed', what)
        if what in ('affine_transform', 'equilateral_triangle'):
            r += 1.
            check('changing the result of ' + what)
    if len({tuple(p.tolist()) for p in P}) == 5:
        u.convex_hull(pts)
        check('convex_hull')
        require(len(pts) == 5 and all(s is t for s, t in zip(pts, P)), 'convex_hull: list of points changed')
    dirs = [b - a, c - a, d - a, e - a]
    if all(np.linalg.norm(v) > .1 for v in dirs):
        d0 = [v.tolist() for v in dirs]
        c1, c2 = u.Cone(a, dirs[0], dirs[1]), u.Cone(a, dirs[2], dirs[3])
        cs = [c1, c2]
        s0 = [coords(k.polygon()) for k in cs]
        for what, f in [('point_in_cone', lambda: c1.point_in_cone(e)), ('intersection', lambda: c1.intersection(c2)),
                        ('intersection', lambda: c1.intersection(c2, same_apex=True)), ('list_intersection', lambda: u.Cone.list_intersection(cs)),
                        ('list_intersection', lambda: u.Cone.list_intersection(cs, same_apex=True))]:
            f()
            check(what)
            require([v.tolist() for v in dirs] == d0, '{}: directions changed', what)
            require(len(cs) == 2 and cs[0] is c1 and cs[1] is c2, '{}: list of cones changed', what)
            require([coords(k.polygon()) for k in cs] == s0, '{}: a cone changed', what)


@st.composite
def clusterings(draw, kinds, **kw):
    s = draw(scene.with_options(scene.scenes(kinds, **kw)))
    return dict(s, again=draw(st.integers(0, 2)))


P = gen.pose()
TESTS = [
    Test('clustering', clusterings('ECSPVB', nmax=6), clustering, 900),
    Test('clustering_dense', clusterings('BBBEC', nmin=4, nmax=9, sizes=(4, 6)), clustering, 500),
    Test('queries', st.fixed_dictionaries({'o': gen.obstacle_spec(P), 'other': gen.obstacle_spec(P), 'p': gen.points(2, 4), 'frame': st.integers(0, 1)}), queries, 2400),
    Test('grouping', scene.scenes('ECSPVB', nmin=2, nmax=8), grouping, 1200),
    Test('geometry', st.fixed_dictionaries({'p': gen.points(5, 4), 'angle': gen.angle, 'polygons': st.lists(gen.convex_vertices(), min_size=1, max_size=4)}), geometry, 3000),
]
