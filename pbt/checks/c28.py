"""Drawing shows the obstacles where they are: after drawing, and after every update of a moved obstacle."""
import math

import numpy as np
import shapely
import shapely.geometry as sg
from hypothesis import strategies as st

from pbt import combo, gen, ref, scene
from pbt.core import Skip, Test, require

RULE = 'the pose changed after the plot was created; for scenes, at least two obstacles'


def axes():
    from matplotlib.figure import Figure
    return Figure().add_subplot()


def shape(patch):
    """The region of a patch in data coordinates."""
    from matplotlib.transforms import Affine2D
    # Curves are divided with a resolution of about one unit
    path = patch.get_patch_transform().transform_path(patch.get_path()).transformed(Affine2D().scale(1e4))
    polys = path.to_polygons(closed_only=True)
    require(len(polys) == 1, 'patch with {} polygons', len(polys))
    return sg.Polygon(np.asarray(polys[0]) / 1e4).buffer(0)


def same(p, q, tol):
    return p.buffer(tol).covers(q) and q.buffer(tol).covers(p)


def marker(ax):
    require(len(ax.lines) == 1, '{} reference points are drawn', len(ax.lines))
    x, y = ax.lines[0].get_data()
    return [float(np.ravel(x)[0]), float(np.ravel(y)[0])]


def check_axes(ax, o, spec, pose, show_ref, show_name, what):
    spec = dict(spec, pose=pose)
    require(len(ax.patches) == 1, '{} patches ({})', len(ax.patches), what)
    want = gen.region(spec, 512)
    require(same(shape(ax.patches[0]), want, 2e-3), 'the drawn obstacle is not at its pose {} ({})', pose, what)
    xr = None
    if spec['t'] != 'P':
        x = spec['xr'] or [0, 0]
        xr = ref.fwd(pose, [x[0] * spec['a'][0], x[1] * spec['a'][1]] if spec['t'] == 'E' else x) if spec['xr'] or spec['t'] == 'E' else None
    if show_ref and spec['t'] != 'P':
        got = marker(ax)
        if xr is None:
            require(want.distance(sg.Point(got)) < 1e-6, 'reference point {} ({})', got, what)
        else:
            require(np.allclose(got, xr, atol=1e-6), 'reference point is drawn at {}, expected {} ({})', got, list(xr), what)
    else:
        require(len(ax.lines) == 0, 'a reference point is drawn ({})', what)
    require(len(ax.texts) == int(show_name), '{} names are drawn ({})', len(ax.texts), what)
    if show_name:
        require(ax.texts[0].get_text() == str(o), 'name {} is drawn, expected {}', ax.texts[0].get_text(), str(o))
        pos = ax.texts[0].get_position()
        if spec['t'] == 'P':
            xr = pose[:2] if pose is not None else [0, 0]
        if xr is not None:
            require(np.allclose(pos, xr, atol=1e-6), 'the name is drawn at {}, expected {} ({})', list(pos), list(xr), what)


def check_obstacle(case, rec):
    from obstacles import Frame, motion_model as mm
    from matplotlib.colors import to_rgba
    spec, pose = case['o'], case['o']['pose']
    v = case['vel']
    o = gen.build(spec, motion_model=mm.SinusVelocity(pose[:2], pose[2], cartesian_coords=True, x1_mag=v[0], x2_mag=v[1]) if v else None,
                  name='abc')
    pose = list(pose)
    kw = {} if case['fc'] is None else {case['fc'][0]: case['fc'][1]}
    handles, ax = None, axes()
    if case['draw']:
        handles, ax2 = o.draw(ax=ax, show_reference=case['ref'], show_name=case['name'], **kw)
        require(ax2 is ax, 'another axis is returned')
        check_axes(ax, o, spec, pose, case['ref'], case['name'], 'draw')
    else:
        handles, ax2 = o.init_plot(ax=ax, show_reference=case['ref'], show_name=case['name'], **kw)
        require(ax2 is ax, 'another axis is returned')
    want = to_rgba('lightgrey' if case['fc'] is None else case['fc'][1])
    require(np.allclose(ax.patches[0].get_facecolor(), want), 'face color {}, expected {}', ax.patches[0].get_facecolor(), want)
    plots = [[handles, ax, None, None]]
    if case['two']:
        ax2 = axes()
        plots.append([(o.draw if case['two'] == 'draw' else o.init_plot)(ax=ax2, show_reference=case['ref'], show_name=case['name'])[0], ax2, None, None])
    for i, op in enumerate(case['ops']):
        if op['op'] == 'pos':
            o.set_motion_model(mm.Static(op['v'], pose[2]))
            pose, v = op['v'] + [pose[2]], None
        elif op['op'] == 'rot':
            o.set_motion_model(mm.Static(pose[:2], op['v']))
            pose, v = pose[:2] + [op['v']], None
        elif op['op'] == 'move':
            o.move(op['v'])
            pose = [pose[0] + (v[0] * op['v'] if v else 0), pose[1] + (v[1] * op['v'] if v else 0), pose[2]]
        elif op['op'] == 'polygon':
            o.polygon()
        else:
            glob = op['op'] == 'update'
            # Any of the plots, the last time all of them
            for k, plot in enumerate(plots):
                if i == len(case['ops']) - 1 or (op['k'] + k) % 3 != 2:
                    o.update_plot(plot[0], **({} if glob else {'frame': Frame.OBSTACLE}))
                    plot[2:] = [list(pose) if glob else None, i]
                    rec.hit(pose != case['o']['pose'])
                    rec.label(op['op'])
            for k, plot in enumerate(plots):
                if plot[3] == i:
                    check_axes(plot[1], o, spec, plot[2], case['ref'], case['name'], '{}, plot {}'.format(op['op'], k))


def check_scene(case, rec):
    import matplotlib.pyplot as plt
    import starshaped_hull as sh
    import starshaped_hull as cs
    obs = scene.build(case)
    rec.hit(len(obs) >= 2)
    clusters, _, _, _ = scene.cluster(obs, case, **({'max_iterations': 1} if case['few'] else {}))
    regs = [gen.region(s, 512) for s in case['obs']]
    U = ref.union(regs)
    # The polygons of ellipses
    tol = 5e-3 + max([max(s['a']) * (1 - math.cos(math.pi / s['n'])) for s in case['obs'] if s['t'] == 'E' and 'n' in s] + [0.03])
    lim = dict(xlim=[-1, 7], ylim=[-2, 8]) if case['lim'] else {}
    before = [[list(np.ravel(o.pos())), o.rot()] for o in obs]
    try:
        fig, ax = cs.draw_clustering(clusters, scene.pt(case['x']), scene.pt(case['xg']), **lim)
        require(len(ax.patches) == len(obs), '{} patches for {} obstacles', len(ax.patches), len(obs))
        shapes = [shape(p) for p in ax.patches]
        require(same(ref.union(shapes), U, 5e-3), 'the clustering plot does not show the obstacles')
        colors = {}
        for p, o in zip(ax.patches, [o for cl in clusters for o in cl.obstacles]):
            colors.setdefault(p.get_facecolor(), []).append(o)
        check_points(ax, case)
        if case['lim']:
            require(tuple(ax.get_xlim()) == (-1, 7) and tuple(ax.get_ylim()) == (-2, 8), 'limits {}, {}', ax.get_xlim(), ax.get_ylim())
        if len(clusters) > 1:
            n = len(colors)
            require(n == len(clusters), '{} colours for {} clusters', n, len(clusters))
        fig, ax = cs.draw_star_hull(clusters, scene.pt(case['x']), scene.pt(case['xg']))
        check_points(ax, case)
        if case['lim']:
            _, axl = cs.draw_star_hull(clusters, scene.pt(case['x']), scene.pt(case['xg']), **lim)
            require(tuple(axl.get_xlim()) == (-1, 7) and tuple(axl.get_ylim()) == (-2, 8), 'limits {}, {}', axl.get_xlim(), axl.get_ylim())
        shown = shapely.union_all([shape(p).buffer(1e-6) for p in ax.patches])
        hulls = [scene.poly_of(cl) for cl in clusters if cl.cluster_obstacle is not None]
        for h in hulls:
            require(shown.buffer(5e-3).covers(h), 'a cluster obstacle is not shown')
        require(shown.buffer(tol).covers(U), 'an obstacle is not shown with the hulls')
        require(ref.union([U] + hulls).buffer(tol).covers(shown), 'something else than the obstacles and hulls is shown')
        for cl in clusters:
            if cl.cluster_obstacle is not None:
                axc = axes()
                cl.draw(ax=axc)
                shown = shapely.union_all([shape(p).buffer(1e-6) for p in axc.patches])
                require(shown.buffer(5e-3).covers(scene.poly_of(cl)), 'drawing of a cluster does not show the cluster obstacle')
        for cl in clusters:
            axc = axes()
            if cl.cluster_obstacle is not None:
                check_cluster(cl, axc, dict(zip(scene.ids(obs), regs)))
        fig, axs = cs.draw_adm_ker(clusters, scene.pt(case['x']), scene.pt(case['xg']), **lim)
        check_kernels(clusters, axs, case, dict(zip(scene.ids(obs), regs)))
        require([[list(np.ravel(o.pos())), o.rot()] for o in obs] == before, 'drawing moved an obstacle')
    finally:
        plt.close('all')


def check_cluster(cl, ax, regs):
    """The cluster obstacle, and on top of it each of its obstacles."""
    res = cl.draw(ax=ax)
    require(isinstance(res, tuple) and any(r is ax for r in res), 'the axis is not returned')
    last = [shape(p) for p in ax.patches][-len(cl.obstacles):]
    for o, s in zip(cl.obstacles, last):
        require(same(s, regs[o.id()], 5e-3), 'drawing of a cluster does not show the obstacle {}', o.id())


def check_kernels(clusters, axs, case, regs):
    """One axis for each cluster with an admissible kernel, with its obstacles, kernel and kernel points."""
    valid = [cl for cl in clusters if cl.admissible_kernel is not None and not cl.admissible_kernel.is_empty]
    axs = list(np.ravel(axs))
    used = [a for a in axs if len(a.patches)]
    require(len(used) == len(valid), '{} axes are used for {} kernels', len(used), len(valid))
    for cl, a in zip(valid, used):
        shapes = [shape(p) for p in a.patches]
        for o in cl.obstacles:
            require(any(same(s, regs[o.id()], 5e-3) for s in shapes), 'obstacle {} is not shown with the kernel', o.id())
        check_points(a, case)
        if cl.admissible_kernel.geom_type == 'Polygon':
            # The kernel might be very large
            K = cl.admissible_kernel
            if K.exterior.coords and np.max(np.abs(np.asarray(K.exterior.coords))) < 1e3:
                require(any(same(s, K, 1e-3) for s in shapes), 'the admissible kernel is not shown')
            tri = np.asarray(cl.kernel_points, float)
            require(any(len(s.exterior.coords) == 4 and np.allclose(sorted(map(tuple, tri)), sorted(np.asarray(s.exterior.coords)[:-1].tolist()), atol=1e-3)
                        for s in shapes if s.geom_type == 'Polygon'), 'the kernel points {} are not shown', tri.tolist())
        if case['lim']:
            require(tuple(a.get_xlim()) == (-1, 7) and tuple(a.get_ylim()) == (-2, 8), 'limits {}, {}', a.get_xlim(), a.get_ylim())


def check_points(ax, case):
    pts = [[float(np.ravel(a)[0]) for a in l.get_data()] for l in ax.lines]
    for p in (case['x'], case['xg']):
        require(any(np.allclose(q, p) for q in pts), 'the point {} is not shown', p)


def check_lines(case, rec):
    """Points, segments, rays and cones are drawn where they are, in a new figure or the given axis."""
    import matplotlib.pyplot as plt
    from utils import Cone
    from utils.cg import Point, Ray
    p, q, r = case['p']
    if p == q or p == r or q == r:
        raise Skip()
    try:
        for what in ('point', 'ray', 'cone'):
            ax = axes() if case['ax'] else None
            kw = {'ax': ax} if ax is not None else {}
            if what == 'point':
                _, got = Point(*p).draw(**kw)
                require(marker(got) == p, 'the point {} is drawn at {}', p, marker(got))
            elif what == 'ray':
                _, got = Ray(Point(*p), Point(*q)).draw(**kw)
                check_ray(got, p, q)
            else:
                d1, d2 = np.subtract(q, p), np.subtract(r, p)
                c = Cone(np.array(p), d1, d2)
                if abs(float(ref.cross(p, q, r))) < 0.05 * np.linalg.norm(d1) * np.linalg.norm(d2):
                    continue
                c.draw(**kw)
                got = ax if ax is not None else plt.gca()
                for d in (d1, d2):
                    require(any(np.allclose(l.get_xydata()[0], p) and along(l.get_xydata()[1] - p, d) for l in got.lines), 'the ray of the cone in direction {} is not drawn', list(d))
                polys = [shape(a) for a in got.patches]
                require(len(polys) >= 1, 'the cone is not drawn')
                for s in (.25, .5, .75):
                    # Points close to the apex, by direction
                    a1, a2 = math.atan2(d1[1], d1[0]), math.atan2(d2[1], d2[0])
                    w = (a2 - a1) % (2 * math.pi)
                    a, b = a1 + s * w, a1 + w + s * (2 * math.pi - w)
                    require(any(g.covers(sg.Point(p[0] + .01 * math.cos(a), p[1] + .01 * math.sin(a))) for g in polys), 'direction {} in the cone is not shown', a)
                    require(not any(g.contains(sg.Point(p[0] + .01 * math.cos(b), p[1] + .01 * math.sin(b))) for g in polys), 'direction {} outside the cone is shown', b)
            rec.hit()
            require(ax is None or got is ax, 'another axis is used')
    finally:
        plt.close('all')


def along(v, d):
    return abs(v[0] * d[1] - v[1] * d[0]) < 1e-9 * np.linalg.norm(d) * np.linalg.norm(v) and np.dot(v, d) > 0


def check_ray(ax, p, q):
    d = [np.array(l.get_data(), float).T for l in ax.lines]
    require(any(len(l) == 2 and np.allclose(l, [p, q]) for l in d), 'the ray is not drawn from {} through {}', p, q)
    for l in d:
        for x in l:
            require(np.allclose(x, p) or np.allclose(x, q) or abs(float(ref.cross(p, q, [float(v) for v in x]))) < 1e-6, 'point {} is not on the ray', list(x))


def check_combination(case, rec):
    from matplotlib.colors import to_rgba
    spc, _ = combo.build(case['c'])
    U = combo.union(case['c'])
    kw = {} if case['fc'] is None else {case['fc'][0]: case['fc'][1]}
    ax = axes()
    h, ax2 = (spc.draw if case['draw'] else spc.init_plot)(ax=ax, show_reference=case['ref'], show_name=case['name'], **kw)
    require(ax2 is ax, 'another axis is returned')
    rec.hit(len(case['c']['o']) > 1 or bool(case['c']['hull']))
    shapes = [shape(p) for p in ax.patches]
    require(same(shapely.union_all(shapes), sg.Polygon(U.exterior) if U.geom_type == 'Polygon' else U, 1e-3), 'the combination is not shown')
    want = to_rgba('lightgrey' if case['fc'] is None else case['fc'][1])
    require(all(np.allclose(p.get_facecolor(), want) for p in ax.patches), 'face color {}, expected {}', ax.patches[0].get_facecolor(), want)
    if case['ref']:
        require(np.allclose(marker(ax), case['c']['xr'], atol=1e-6), 'reference point is drawn at {}', marker(ax))
    else:
        require(len(ax.lines) == 0, 'a reference point is drawn')
    require([t.get_text() for t in ax.texts] == ([str(spc)] if case['name'] else []), 'names {} are drawn', [t.get_text() for t in ax.texts])
    if case['name']:
        require(np.allclose(ax.texts[0].get_position(), case['c']['xr'], atol=1e-6), 'the name is drawn at {}', ax.texts[0].get_position())
    drawn = list(ax.patches) + list(ax.lines) + list(ax.texts)
    require(all(any(a is b for b in h) for a in drawn), 'a drawn part is not returned')
    spc.update_plot(h)
    require(all(p in ax.patches for p in drawn[:len(shapes)]) and same(shapely.union_all([shape(p) for p in ax.patches]), shapely.union_all(shapes), 1e-6),
            'the drawing changes with an update')


def check_polygon(case, rec):
    from utils import draw_shapely_polygon
    polys = [sg.Polygon(p).buffer(0) for p in case['p']]
    U = ref.union(polys)
    geoms = [g for g in getattr(U, 'geoms', [U]) if not len(g.interiors)]
    if not geoms:
        raise Skip()
    U = geoms[0] if len(geoms) == 1 else sg.MultiPolygon(geoms)
    arg = U
    if case['extra'] and len(geoms) > 1:
        arg = sg.GeometryCollection(geoms + [sg.LineString([[90, 90], [91, 91]]), sg.Point(80, 80)])
    rec.hit(len(geoms) > 1)
    ax = axes()
    handles, ax2 = draw_shapely_polygon(arg, ax=ax, fc='r')
    require(ax2 is ax and len(handles) == len(ax.patches) == len(geoms), '{} patches for {} polygons', len(ax.patches), len(geoms))
    require(same(shapely.union_all([shape(p) for p in ax.patches]), U, 1e-6), 'the patches are not the polygons')
    # Only a part of the plane is shown
    a, b, w, h = case['lim']
    for lim in ({'xlim': [a, a + w]}, {'ylim': [b, b + h]}, {'xlim': [a, a + w], 'ylim': [b, b + h]}):
        ax = axes()
        draw_shapely_polygon(arg, ax=ax, fc='r', **lim)
        for got, want in ((ax.get_xlim(), lim.get('xlim')), (ax.get_ylim(), lim.get('ylim'))):
            require(want is None or np.allclose(got, want), 'limits {}, expected {}', got, want)
        window = sg.box(a if 'xlim' in lim else -9, b if 'ylim' in lim else -9, a + w if 'xlim' in lim else 9, b + h if 'ylim' in lim else 9)
        # Points in the window, not close to the boundary of the polygons
        x0, y0, x1, y1 = window.bounds
        pts = shapely.points([[x0 + (x1 - x0) * (i + .37) / 23, y0 + (y1 - y0) * (j + .41) / 23] for i in range(23) for j in range(23)])
        pts = pts[shapely.distance(U.boundary, pts) > 1e-3]
        shown = np.zeros(len(pts), bool)
        for g in [shape(p) for p in ax.patches if len(p.get_xy()) > 2]:
            shown |= shapely.contains(g, pts)
        require(np.array_equal(shown, shapely.contains(U, pts)), 'the patches are not the polygons with limits {}', lim)
        rec.label('shown in part' if not window.covers(U) else 'shown completely')


@st.composite
def obstacle_cases(draw):
    o = draw(gen.obstacle_spec(gen.pose(none=False)))
    op = st.one_of(st.integers(0, 2).map(lambda k: {'op': 'update', 'k': k}), st.integers(0, 2).map(lambda k: {'op': 'update local', 'k': k}), st.just({'op': 'polygon'}),
                   gen.point(4).map(lambda v: {'op': 'pos', 'v': v}), gen.angle.map(lambda v: {'op': 'rot', 'v': v}),
                   st.integers(0, 8).map(lambda k: {'op': 'move', 'v': k / 4}))
    return {'o': o, 'vel': draw(st.one_of(st.none(), gen.point(2))), 'draw': draw(st.booleans()), 'ref': draw(st.booleans()),
            'name': draw(st.booleans()), 'fc': draw(st.sampled_from([None, ['fc', 'r'], ['facecolor', 'b']])),
            'ops': draw(st.lists(op, max_size=6)) + [{'op': 'update', 'k': 0}],
            'two': draw(st.sampled_from([None, 'draw', 'init']))}


@st.composite
def combs(draw):
    """Teeth of different length on a bar."""
    n = draw(st.integers(2, 4))
    v = [[2 * n - 1, 0], [0, 0]]
    for i in range(n):
        h = draw(st.integers(2, 8))
        v += [[2 * i, h], [2 * i + 1, h]] + ([[2 * i + 1, 1], [2 * i + 2, 1]] if i < n - 1 else [])
    return [[y, x] for x, y in v] if draw(st.booleans()) else v


@st.composite
def scene_cases(draw):
    return dict(draw(scene.scenes(nmax=5)), lim=draw(st.booleans()), few=draw(st.booleans()))


TESTS = [
    Test('obstacle', obstacle_cases(), check_obstacle, 1200),
    Test('scene', scene_cases(), check_scene, 240),
    Test('lines', st.fixed_dictionaries({'p': gen.points(3, 4), 'ax': st.booleans()}), check_lines, 400),
    Test('polygons', st.fixed_dictionaries({'p': st.lists(st.tuples(st.one_of(gen.convex_vertices(), gen.star_vertices(r=6), combs()), gen.point(4)).map(
        lambda t: [[p[0] + t[1][0], p[1] + t[1][1]] for p in t[0]]), min_size=1, max_size=4), 'extra': st.booleans(),
        'lim': st.tuples(st.integers(-4, 3), st.integers(-4, 3), st.integers(1, 6), st.integers(1, 6))}), check_polygon, 800),
    Test('combination', st.fixed_dictionaries({'c': combo.combinations(), 'draw': st.booleans(), 'ref': st.booleans(), 'name': st.booleans(),
                                               'fc': st.sampled_from([None, ['fc', 'r'], ['facecolor', 'b']])}), check_combination, 500),
]
